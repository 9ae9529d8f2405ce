#pragma once
// Stand-in for the xrootd link: harnesses derive from it and decide what arrives and what happens to what is sent.
class XrdLink {
public:
  virtual ~XrdLink() = default;
  virtual const char *Host() { return "xrd"; }
  virtual int Recv(char *, int, int) { return -1; }
  virtual int Send(const char *, int) { return -1; }
  virtual int Close(int = 0) { return 0; }
};
