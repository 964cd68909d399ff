/* Offline checker: compares two logs of portable.cc record by record. Prints one line per difference found. */
#include "common.hh"
#include <cmath>
using namespace vp;
struct Rec { char k; uint32_t what; uint64_t v; };
static bool readRec(FILE *f, Rec &r) { int c = fgetc(f); if(c == EOF) return false; r.k = (char)c; return fread(&r.what, 4, 1, f) == 1 && fread(&r.v, 8, 1, f) == 1; }
int main(int argc, char **argv) {
    FILE *a = fopen(argv[1], "rb"), *b = fopen(argv[2], "rb");
    if(!a || !b) return 3;
    Rec x, y;
    uint64_t cur = 0, n = 0, inCase = 0, lastOp = 0;
    const uint32_t opHash = (uint32_t)hashStr("op");
    for(;;) {
        bool ha = readRec(a, x), hb = readRec(b, y);
        if(!ha && !hb) break;
        bool ok = ha == hb && x.k == y.k && x.what == y.what;
        if(ok) {
            if(x.k == 'r') {
                double p, q; memcpy(&p, &x.v, 8); memcpy(&q, &y.v, 8);
                ok = p == q || std::fabs(p - q) <= 1e-9 * std::max(std::fabs(p), std::fabs(q)) || (p != p && q != q);
            } else ok = x.v == y.v;
        }
        if(ha && x.k == 'C') { cur = x.v; inCase = 0; }
        if(ha && x.k == 'n' && x.what == opHash && ok) lastOp = x.v;
        if(!ok) { printf("DIFF %llu observation %llu (operation %llu): %c %08x %llx against %c %08x %llx\n", (unsigned long long)cur, (unsigned long long)inCase, (unsigned long long)lastOp, ha ? x.k : '-', x.what, (unsigned long long)x.v, hb ? y.k : '-', y.what, (unsigned long long)y.v); return 0; }
        n++; inCase++;
    }
    printf("SAME %llu\n", (unsigned long long)n);
    return 0;
}
