// Stand-in for libpam: accepts users/passwords from a table, and records the
// calls. The conversation function is really called, as PAM would.
#include "fakepam.hpp"
#include <stdlib.h>
#include <string.h>
namespace fakepam {
State st;
struct H { std::string service, user; const pam_conv *conv; pam_conv c; };
}
using namespace fakepam;
extern "C" {
int pam_start(const char *service, const char *user, const struct pam_conv *conv, pam_handle_t **h) {
  st.starts++;
  if (st.fail_start) { *h = nullptr; return PAM_SYSTEM_ERR; }
  H *x = new H;
  x->service = service ? service : "";
  x->user = user ? user : "";
  x->c = *conv;
  *h = (pam_handle_t *)x;
  st.open++;
  return PAM_SUCCESS;
}
int pam_authenticate(pam_handle_t *h, int) {
  H *x = (H *)h;
  pam_message m[2] = {{PAM_PROMPT_ECHO_OFF, "Password: "}, {PAM_PROMPT_ECHO_OFF, "Password: "}};
  const pam_message *mp[2] = {&m[0], &m[1]};
  pam_response *r = nullptr;
  int n = 1;
  int rc = x->c.conv(n, mp, &r, x->c.appdata_ptr);
  std::string pw;
  if (rc == PAM_SUCCESS && r && r[0].resp) pw = r[0].resp;
  if (r) { for (int i = 0; i < n; i++) free(r[i].resp); free(r); }
  if (st.record) st.tries.push_back({x->service, x->user, pw});
  auto it = st.users.find(x->user);
  if (rc != PAM_SUCCESS) return rc;
  return it != st.users.end() && it->second == pw && (st.service.empty() || st.service == x->service) ? PAM_SUCCESS : PAM_AUTH_ERR;
}
int pam_acct_mgmt(pam_handle_t *h, int) { H *x = (H *)h; return st.locked.count(x->user) ? PAM_ACCT_EXPIRED : PAM_SUCCESS; }
int pam_end(pam_handle_t *h, int) { if (!h) return PAM_SYSTEM_ERR; delete (H *)h; st.open--; return PAM_SUCCESS; }
}
