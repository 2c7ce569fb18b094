// Shared HTTP machinery: abstract requests and their encodings, an onion with a
// recording handler on the in-memory transport, and delivery of a byte stream in
// an arbitrary partition.
#pragma once
#include "onionh.hpp"
namespace hm {
typedef std::vector<std::pair<std::string, std::string>> Pairs;

struct Part {                    // one multipart part
  std::string name, value, filename;
  bool file = false;
};
enum BodyKind { NOBODY, URLENC, MULTIPART, RAW, PUTFILE };

struct Model {                   // what the client means
  std::string method = "GET";
  std::string path;              // decoded, starts with '/'
  Pairs query;                   // decoded
  Pairs cookies;
  int minor = 1;                 // HTTP/1.x
  Pairs headers;                 // as meant (value without surrounding blanks)
  BodyKind kind = NOBODY;
  Pairs form;
  std::vector<Part> parts;
  std::string body;              // RAW, PUTFILE
  std::string boundary;
  std::string bytes;             // the encoding
  size_t head_size = 0;          // bytes up to and including the blank line
};
struct GenOpts {
  size_t max_body = 6000;
  bool fancy = true;             // folded headers, bare LF, blanks, odd cases
  bool allow_body = true;
  std::vector<std::string> methods;   // empty: all
  int connection = -1;           // -1 random, 0 none, 1 keep-alive, 2 close
};
Model gen_request(Gen &g, const GenOpts &o = GenOpts());
std::string pct(Gen &g, const std::string &s, bool path, bool value = false);

struct Snap {                    // what a handler saw
  bool seen = false;
  std::string method, fullpath, path;
  bool http11 = false;
  Pairs headers, query, post, files, cookies;      // sorted; files: name -> content
  bool has_post = false, has_files = false;        // whether there is such a dictionary, even if empty
  bool has_data = false;
  std::string data;
  std::vector<std::string> temp_names;
  std::string str() const;
};
Snap snapshot(onion_request *r);
std::string diff(const Snap &a, const Snap &b);
std::string check_against(const Model &m, const Snap &s);    // "" if faithful

// An onion with one handler.
struct Server {
  onion *o;
  onion_listen_point *lp;
  std::function<int(onion_request *, onion_response *)> handler;
  std::vector<Snap> snaps;
  bool owned = true;
  explicit Server(int flags = 0, bool install = true);
  explicit Server(onion *existing);       // an onion made elsewhere, which frees it after this
  ~Server();
};
// One client connection on a Server.
struct Client {
  Server &s;
  oh::Conn c;
  onion_request *r;
  std::string pending;
  bool open = true;
  int status = 0;                // last status from read_ready
  explicit Client(Server &s, bool socket = false);    // socket: onion's own socket functions, over a socket pair
  ~Client();
  // deliver one chunk (any size; the transport hands out at most what is asked for)
  bool deliver(const char *d, size_t n);         // false: server closed
  bool deliver(const std::string &d, const std::vector<size_t> &cuts);
  void close();
};
std::vector<size_t> gen_cuts(Gen &g, size_t n, size_t interesting = 0);
std::string cuts_str(const std::vector<size_t> &c);
std::string no_date(std::string reply);    // Date header blanked
}
