#!/usr/bin/env python3
"""Writes /verif/known_findings.txt: known.txt (open findings, by hand) plus one fixed: line per fix commit of /repo."""
import os, re, subprocess
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MAP = [  # first match wins
    (r"onion_dict_(remove|hard_dup|get_dict)", "C11"), (r"html_quote|unquote_inplace|onion_quote|c_quote|base64", "C13"), (r"JSON", "C12"),
    (r"request line end split", "C01"), (r"token limit|empty header lines|folded|NUL at the start|double free|without name crashed|post buffer was too|leaked the temporal", "C03"),
    (r"counted twice|PUT accepted", "C04"), (r"multipart", "C02"), (r"cookie header parsing", "C02"), (r"without HTTP version", "C03"), (r"line end after", "C06"),
    (r"never listened", "C28"), (r"auth_pam", "C19"), (r"websocket writes", "C17"), (r"websocket", "C16"), (r"end of chunked", "C05"), (r"byte ranges|HEAD of files", "C09"), (r"date strings", "C09"),
    (r"shortcut_rename", "C10"), (r"internal redirect", "C07"), (r"webdav", "C10"), (r"HEAD with content|set_length|short and failed|content written before|HTTP/1.0|response headers|204 and 304", "C05"),
    (r"session", "C15"), (r"cookie", "C20"), (r"FORBIDDEN|then fails", "C26"), (r"export|listing", "C08"), (r"poller|ptr_list", "C18"), (r"mime|png|jpeg", "C27"), (r"opack", "C21"), (r"otemplate|template", "C22"),
    (r"listen|onion_free|lifecycle|onion_set", "C28"), (r"https|TLS|gnutls", "C24"), (r"C\+\+|bindings", "C25"), (r"race|thread|lock", "C23"), (r"url", "C07"),
]
lines = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"]).decode().splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    m = re.search(r"\[(C\d\d)\]", s)
    p = m.group(1) if m else next((p for r, p in MAP if re.search(r, s)), None)
    if not p:
        raise SystemExit("no property for " + l)
    lines.append("fixed: property=%s %s %s" % (p, h, s[5:]))
k = os.path.join(H, "tools/known.txt")
head = open(k).read() if os.path.exists(k) else ""
open(os.path.join(H, "known_findings.txt"), "w").write(head + "\n".join(lines) + "\n")
print(len(lines))
