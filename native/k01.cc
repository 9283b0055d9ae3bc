#include "vh.h"
#include <stdexcept>
#include <sofa/pbrpc/bin2ascii.h>
using namespace vh; using namespace sofa::pbrpc;
static std::string rb64(const std::string& s) {
    static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r; unsigned acc = 0; int bits = 0;
    for (unsigned char c : s) { acc = (acc << 8) | c; bits += 8; while (bits >= 6) { bits -= 6; r += T[(acc >> bits) & 63]; } acc &= (1u << bits) - 1; }
    if (bits) r += T[(acc << (6 - bits)) & 63];
    while (r.size() % 4) r += '=';
    return r;
}
static std::string rhex(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s) { sprintf(b, "%02x", c); r += b; } return r; }
static bool inset(char c, const char* set) { return c && strchr(set, c); }
static void enc(const std::string& s) {
    Case("bytes " + esc(s));
    std::string e = b64_encode(s), h = bin2hex(s);
    CHK(e == rb64(s), "b64-encode", "b64_encode gives " + esc(e) + " want " + rb64(s));
    CHK(h == rhex(s), "hex-encode", "bin2hex gives " + esc(h) + " want " + rhex(s));
    try { CHK(b64_decode(rb64(s)) == s, "b64-roundtrip", "decode(encode) differs"); } catch (std::exception& x) { fail("b64-roundtrip-throw", x.what()); }
    try { CHK(hex2bin(rhex(s)) == s, "hex-roundtrip", "decode(encode) differs"); } catch (std::exception& x) { fail("hex-roundtrip-throw", x.what()); }
}
static void dec(const std::string& t) {
    Case("text " + esc(t));
    bool ok = t.size() % 4 == 0, threw = false;
    for (char c : t) if (!inset(c, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=")) ok = false;
    std::string r;
    try { r = b64_decode(t); } catch (std::runtime_error&) { threw = true; }
    CHK(threw == !ok, "b64-reject", std::string("b64_decode ") + (threw ? "rejected" : "accepted"));
    size_t p = t.find('=');
    if (!threw && ok && (p == std::string::npos || p + 2 >= t.size()) && rb64(r) == t) {}
    else if (!threw && ok && p == std::string::npos) CHK(rb64(r) == t, "b64-decode", "wrong bytes " + esc(r));
    ok = t.size() % 2 == 0; threw = false;
    for (char c : t) if (!inset(c, "0123456789abcdefABCDEF")) ok = false;
    try { r = hex2bin(t); } catch (std::runtime_error&) { threw = true; }
    CHK(threw == !ok, "hex-reject", std::string("hex2bin ") + (threw ? "rejected" : "accepted"));
    if (!threw && ok) { std::string l = t; for (auto& c : l) c = tolower(c); CHK(rhex(r) == l, "hex-decode", "wrong bytes " + esc(r)); }
}
int main() {
    init();
    enc("");
    for (int a = 0; a < 256; a++) { enc(std::string(1, a)); for (int b = 0; b < 256; b++) enc(std::string(1, a) + char(b)); }
    for (int i = 0; i < (thorough() ? 400000 : 30000); i++) enc(rbytes(i % 71 < 70 ? i % 71 : rnd(5000)));
    for (int b = 8; b <= 17; b++) for (int k = -3; k <= 3; k++) enc(rbytes((1 << b) + k));
    for (int a = 0; a < 256; a++) { dec(std::string(1, a)); for (int b = 0; b < 256; b++) { dec(std::string(1, a) + char(b)); dec(std::string("QQ") + char(a) + char(b)); dec(std::string(1, a) + char(b) + "Q="); dec(std::string("ab") + "QUJD" + char(a) + char(b)); } }
    std::string al = "AQz09+/=aF \x80\xff\0-_g@";
    for (int i = 0; i < (thorough() ? 400000 : 30000); i++) { dec(rfrom(al, rnd(14))); dec(rfrom("ABCDEFabcdef0123456789", rnd(40))); dec(rb64(rbytes(rnd(50)))); }
    return done();
}
