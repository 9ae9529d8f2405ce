#pragma once
#define XrdVERSION "shim"
