// WebSocket pieces shared by C16 and C17: independent SHA-1 / base64 for the accept
// key, frame encoder for the client side, strict frame decoder for the server side.
#pragma once
#include "http.hpp"
namespace ws {
std::string accept_key(const std::string &key);
struct Frame { bool fin = true; int op = 1; bool masked = false; std::string payload; int lenform = 0; };
std::string encode(const Frame &f, const unsigned char mask[4]);
// Decodes every frame of s; error is set on anything that is not a valid server frame.
std::vector<Frame> decode(const std::string &s, std::string &error, bool truncated_ok = false);
std::string handshake_request(Gen &g, const std::string &key, const std::string &extra = "");
std::string show(const Frame &f);
// Splits the handshake reply off out; "" or what is wrong with it.
std::string check_handshake(const std::string &out, const std::string &key, size_t &consumed, oh::Reply &rep);
extern long sleeps;              // calls of sleep() by the library
}
