// Common glue: onion headers, quiet logging that still touches its arguments,
// an in-memory transport, a strict HTTP/1.x reply reader.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <memory>
#include <strings.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <stdlib.h>
#include <unistd.h>
extern "C" {
#include <onion/onion.h>
#include <onion/block.h>
#include <onion/codecs.h>
#include <onion/dict.h>
#include <onion/handler.h>
#include <onion/http.h>
#include <onion/listen_point.h>
#include <onion/log.h>
#include <onion/low.h>
#include <onion/mime.h>
#include <onion/poller.h>
#include <onion/ptr_list.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/sessions.h>
#include <onion/shortcuts.h>
#include <onion/types.h>
#include <onion/types_internal.h>
#include <onion/url.h>
#include <onion/websocket.h>
void onion_request_parser_data_free(void *);
}
namespace oh {
void quiet_log();                                  // install the formatting-only logger

// ---- in-memory connection -------------------------------------------------
struct Conn {
  std::string out;                                 // everything written to the client
  std::string in;                                  // bytes available to a reading handler (websockets)
  size_t in_pos = 0;
  std::function<ssize_t(const char *, size_t)> on_write;   // optional short/failed write policy
  std::function<ssize_t(char *, size_t)> on_read;
  bool closed = false;
  int fd = -1, peer = -1;                          // when used over a socket pair: the server's end and the client's
  void use_socket();
  void drain();                                    // moves what the server wrote to out
  ~Conn();
};
onion_listen_point *mem_listen_point();            // add to an onion with onion_add_listen_point
onion_request *mem_request(onion_listen_point *lp, Conn *c);
Conn *conn_of(onion_request *r);

// ---- strict reply reader --------------------------------------------------
struct Header { std::string name, value; };
struct Reply {
  bool ok = false;
  std::string error;
  int minor = -1, code = 0;
  std::string reason;
  std::vector<Header> headers;
  std::string body;
  enum Framing { NONE, LENGTH, CHUNKED, CLOSE } framing = NONE;
  size_t consumed = 0;                             // bytes of the input this reply took
  bool complete = false;                           // body framing satisfied
  const std::string *get(const char *n) const;
  int count(const char *n) const;
  bool keep_alive() const;                         // what the reply tells the client
};
// Reads one reply at the start of s. at_eof: no more bytes will follow.
Reply read_reply(const std::string &s, bool head_request, bool at_eof, bool http10_request = false);
bool ieq(const std::string &a, const std::string &b);
std::string lower(std::string s);
std::string str(const char *s);                    // NULL -> "<null>"
std::string read_file(const std::string &p, bool *ok = nullptr);
void write_file(const std::string &p, const std::string &data);
void rm_rf(const std::string &p);                  // refuses anything outside the scratch dir
std::vector<std::string> list_dir(const std::string &p);
}
