#pragma once
#include "qclient/QClient.hh"
