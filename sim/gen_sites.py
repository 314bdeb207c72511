# prints sites.inc: NSITES call sites with direct 5-byte calls, irregular spacing
import random, sys
N = 640
r = random.Random(12345)
o = []
o.append("__asm__(")
o.append('".text\\n"')
for k in range(8):
    o.append(f'"dd_tramp_{k}: jmp *dd_slot+{8*k}(%rip)\\n"')
for i in range(N):
    o.append(f'".globl dd_site_{i}\\n" ".skip {r.choice([0,0,0,1,2,3,5,8,16,40,200])}, 0x90\\n" "dd_site_{i}: sub $8,%rsp\\n" "call dd_tramp_{i&7}\\n" "dd_ret_{i}: add $8,%rsp\\n ret\\n"')
o.append('".data\\n .globl site_fn\\n .globl site_ret\\n .balign 8\\n site_fn:\\n"')
for i in range(N): o.append(f'".quad dd_site_{i}\\n"')
o.append('"site_ret:\\n"')
for i in range(N): o.append(f'".quad dd_ret_{i}\\n"')
o.append('".text\\n");')
o.append("extern void *site_fn[]; extern void *site_ret[];")
o.append("static double call_site_d(int k,double a,double b){return ((double(*)(double,double))site_fn[k])(a,b);}")
o.append("static float call_site_f(int k,float a,float b){return ((float(*)(float,float))site_fn[k])(a,b);}")
# sites of fused multiply-adds, casts and vector operations: ordinary compiled calls, whose return addresses are asked for at run time
KINDS = [("d", "fma", 1), ("f", "fma", 1), ("d", "cast", 1)] + [(p, op, n) for n in (2, 4, 8, 16) for p in "df" for op in ("add", "sub", "mul", "div")]
COPIES = 4
NX = len(KINDS) * COPIES
T = {"d": "double", "f": "float"}
o.append("static void *xs_slot[%d]; static void *volatile xs_ret;" % len(KINDS))
o.append("static const char *xs_name[] = {%s};" % ",".join(
    '"_doubletofloatcast"' if op == "cast" else '"_%s%s%s"' % ("%dx" % n if n > 1 else "", T[p], op) for p, op, n in KINDS))
done = set()
for k, (p, op, n) in enumerate(KINDS):
    t = T[p] + (str(n) if n > 1 else "")
    rt = "float" if op == "cast" else t
    sig = ",".join([t] * (3 if op == "fma" else 1 if op == "cast" else 2))
    prm = ",".join("%s a%d" % (t, i) for i in range(sig.count(",") + 1))
    o.append("static __attribute__((noinline)) %s xp_%d(%s){ xs_ret = __builtin_return_address(0); return (%s)a0; }" % (rt, k, prm, rt))
    for c in range(COPIES):
        i = c * len(KINDS) + k
        b = "static __attribute__((noinline)) int xs_%d(char **av, u64 *r){ " % i
        na = sig.count(",") + 1
        for a in range(na):
            b += "%s a%d; " % (t, a)
            if n == 1:
                b += "a%d = %sv(av[%d]); " % (a, p, a)
            else:
                b += "for (int i = 0; i < %d; i++) a%d[i] = %sv(av[%d + i]); " % (n, a, p, a * n)
        b += "%s c = ((%s(*)(%s))xs_slot[%d])(%s); " % (rt, rt, sig, k, ",".join("a%d" % a for a in range(na)))
        q = "f" if op == "cast" else p
        b += "r[0] = %sb(c); " % q if n == 1 else "for (int i = 0; i < %d; i++) r[i] = %sb(c[i]); " % (n, q)
        o.append(b + "return %d; }" % n)
o.append("#define NXKINDS %d" % len(KINDS))
o.append("#define NXSITES %d" % NX)
o.append("static void *xs_probe[] = {%s};" % ",".join("xp_%d" % k for k in range(len(KINDS))))
o.append("static int (*xs_fn[])(char **, u64 *) = {%s};" % ",".join("xs_%d" % i for i in range(NX)))
print("\n".join(o))
