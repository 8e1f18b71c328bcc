// A collection (young or full) at any allocation of a program: nothing the program can still reach is freed.
#include "hx.h"
#ifndef NGC
#define NGC 1
#endif
typedef union { ObjInstance a; ObjString b; ObjFunction c; ObjClass d; ObjMap e; ObjArray f; ObjClosure g; ObjRegex h; ObjUpvalue i; ObjScope j; ObjInternal k; ObjNative l; ObjBoundMethod m; ObjModule n; ObjIClass o; } Cell;
static void *cells[6000]; static int nc, armed, left, inhook, count, at[NGC]; // at: the allocations before which collections happen
#include <sys/stat.h>
#include <errno.h>
int __wrap_stat(const char *p, struct stat *s) { errno = ENOENT; return -1; }  // there are no files
Obj *__real_getNewObject(ObjType type, size_t sz, int flags);
static void sweep(void) {
  int i, k = 0;
  for (i = 0; i < nc; i++) { Obj *o = cells[i]; if (o->type == OBJ_T_NONE) sym_poison((char *)o + sizeof(Obj), sizeof(Cell) - sizeof(Obj)); else cells[k++] = o; }
  nc = k;
}
Obj *__wrap_getNewObject(ObjType type, size_t sz, int flags) {
  if (armed && !inhook && left > 0 && !isInGC()) {
    count++;
    if (count == at[NGC - left]) {
#if KIND == 2
      int k = sym_choice("full", 2);
#else
      int k = KIND;
#endif
      left--; inhook = 1; if (k == 0) collectYoungGarbage(); else collectGarbage(); sweep(); inhook = 0;
    }
  }
  Obj *o = __real_getNewObject(type, sz, flags);
  sym_unpoison((char *)o + sizeof(Obj), sizeof(Cell) - sizeof(Obj));
  if (nc < 6000) cells[nc++] = o;
  return o;
}
static const struct { const char *src, *want; } P[] = {
/* 0 */ { "fun mk(s) { var t = s + \"!\"; return fun(x) { t = t + x; return t; }; } var f = mk(\"a\"); var g = mk(\"b\"); f(\"1\"); g(\"2\"); var res = f(\"3\") + g(\"4\");", "a!13b!24" },
/* 1 */ { "var a = []; for (var i = 0; i < 3; i += 1) { a << [\"x\" + \"y\", [String(i)]]; } var b = a.dup(); a.clear(); var res = b[0][0] + b[1][1][0] + b[2][1][0];", "xy12" },
/* 2 */ { "var m = %{}; for (var i = 0; i < 3; i += 1) { m[\"k\" + String(i)] = \"v\" + String(i); } m.delete(\"k1\"); m[\"k\" + \"5\"] = [\"w\"]; var res = m[\"k\" + \"0\"] + m[\"k2\"] + m[\"k5\"][0] + String(m.size());", "v0v2w3" },
/* 3 */ { "class A { init(n) { this.n = n + \".\"; this.l = [n + \"l\"]; } get() { return this.n + this.l[0]; } } class B < A { init(n) { super.init(n + \"B\"); } get() { return \"<\" + super.get() + \">\"; } } var o = B(\"q\"); o.extra = \"e\" + \"f\"; var res = o.get() + o.extra;", "<qB.qBl>ef" },
/* 4 */ { "class E1 < Error { } fun th(x) { throw E1(\"m\" + x); } var r = []; try { th(\"1\"); } catch (E1 e) { r << e.message; try { th(\"2\"); } catch (Error f) { r << f.message; r << e.message; } } ensure { r << (\"en\" + \"s\"); } var res = r.join(\"\");", "m1m2m1ens" },
/* 5 */ { "var a = [\"a\" + \"1\", \"b\" + \"2\", \"c\" + \"3\"]; var r = a.map() -> (x) { x + \"!\"; }; var s = \"\"; a.each() -> (x) { var z = x + \"-\"; s = s + z; if (z == \"a1-\") { continue; } s = s + z; }; var res = r.join(\"\") + s;", "a1!b2!c3!a1-b2-b2-c3-c3-" },
/* 6 */ { "var s = \"ab,cd,ef\"; var p = s.split(\",\"); var t = \"${p[0]}${p[1]}\" + \"x\"; t << p[2]; var u = t.dup(); u << \"z\"; var res = t + u + (p[0] * 2);", "abcdxefabcdxefzabab" },
/* 7 */ { "fun f(a, b = \"d\" + \"1\", *r) { return a + b + r.join(\"\"); } fun g(k: \"x\" + \"y\", l: \"z\") { return k + l; } var res = f(\"a\" + \"b\") + f(\"1\" + \"2\", \"3\" + \"4\", \"5\" + \"6\", \"7\") + g(l: \"p\" + \"q\") + g(k: \"u\" + \"v\", l: \"w\" + \"x\");", "abd11234567xypquvwx" },
/* 8 */ { "var re = Regex(\"(a+)(b+)\"); var md = re.match(\"xaabb\", true); var c = md.captures(); var res = c[0] + c[1];", "aabb" },
/* 9 */ { "var q = \"o\" + \"k\"; var v = eval(\"fun ev(x) { return x + \\\"e\\\"; } ev(\\\"1\\\" + \\\"2\\\");\"); var res = ev(\"a\" + \"b\") + q;", "abeok" },
/* 10 */ { "fun bb() { var a = \"l\" + \"1\"; var b = [\"l\" + \"2\"]; return Binding(); } var b = bb(); var g = [\"g\" + \"1\", \"g\" + \"2\"]; b.localVariableSet(\"n\" + \"w\", \"v\" + \"w\"); var res = b.localVariableGet(\"a\") + b.localVariableGet(\"b\")[0] + b.localVariableGet(\"nw\");", "l1l2vw" },
/* 11 */ { "var m = %{\"a\": [\"1\"]}; var r = \"\"; foreach (k, v in m) { r = r + k + v[0]; } foreach (x in [\"p\" + \"q\", \"r\" + \"s\"]) { r = r + x; } class It { init() { this.n = 0; } iterNext() { this.n = this.n + 1; if (this.n > 2) { return nil; } return \"i\" + String(this.n); } } foreach (y in It()) { r = r + y; } var res = r;", "a1pqrsi1i2" },
/* 12 */ { "class C { init(x) { this.x = x; } m(y) { return this.x + y; } } var bm = C(\"c\" + \"1\").m; var l = [bm]; bm = nil; var res = l[0](\"a\" + \"b\");", "c1ab" },
/* 13 */ { "module Mo { hi() { return \"hi\" + this.n; } } class D { init() { this.n = \"n\" + \"m\"; } } D.include(Mo); class D2 < D { class sm(x) { return x + \"s\"; } } var d = D2(); var e = d.dup(); d.n = \"o\"; var res = d.hi() + e.hi() + D2.sm(\"t\" + \"u\");", "hiohinmtus" },
/* 14 */ { "class G { init() { this._v = \"v\" + \"0\"; } val { return this._v + \"g\"; } val=(x) { this._v = x + \"s\"; } methodMissing(nm, *a) { return nm + a.join(\"\"); } toString() { return \"G\" + this._v; } } var g = G(); g.val = \"w\" + \"1\"; var res = g.val + g.foo(\"a\" + \"b\") + \"${g}\" + String(g);", "w1sgfooabGw1sGw1s" },
/* 15 */ { "class K { X = \"c\" + \"k\"; class set(v) { this.v = v; return this.v; } } var k = K.set(\"z\" + \"y\"); K.defineMethod(\"dm\", fun() { return \"d\" + \"m\"; }); var res = K::X + K.v + K().dm();", "ckzydm" },
/* 16 */ { "class O { init(n) { this.n = n; } opAdd(o) { return O(this.n + o.n); } opIndexGet(i) { return this.n + i; } } var res = (O(\"a\" + \"b\") + O(\"c\" + \"d\"))[\"e\" + \"f\"];", "abcdef" },
/* 17 */ { "class O { init(n) { this.n = n; } opEquals(o) { return this.n == o.n; } hashKey() { return this.n.size(); } } var m = %{}; m[O(\"a\" + \"b\")] = \"1\" + \"2\"; m[O(\"abc\" + \"d\")] = \"3\"; var res = m[O(\"a\" + \"b\")] + m[O(\"ab\" + \"cd\")] + [\"x\" + \"y\", [\"z\"]].inspect() + %{\"q\": \"r\"}.inspect();", "123[\"xy\",[\"z\"]]%{\"q\":\"r\"}" },
/* 18 */ { "fun fin(n) { var l = []; for (var i = 0; i < 2; i += 1) { var t = \"t\" + String(i); l << fun() { t = t + \"u\"; return t; }; } return l; } var fs = fin(2); var res = fs[0]() + fs[1]() + fs[0]();", "t0ut1ut0uu" },
/* 19 */ { "fun y2() { return yield(\"y\" + \"1\", [\"y\" + \"2\"]); } var res = y2() -> (a, b) { return a + b[0]; } ;", "y1y2" },
/* 20 */ { "fun deep(n) { if (n == 0) { throw Error(\"d\" + \"p\"); } var l = \"l\" + String(n); deep(n - 1); return l; } var r = \"\"; foreach (i in [1, 2]) { try { deep(i); } catch (Error e) { r = r + e.message + String(e.backtrace.size()); } } var res = r;", "dp3dp4" },
/* 21 */ { "class MyErr < Error { init(m, x) { super.init(m + \"?\"); this.x = x; } } var r = nil; try { throw MyErr(\"a\" + \"b\", [\"c\" + \"d\"]); } catch (MyErr e) { r = e; } var g = [\"g\" + \"h\"]; var res = r.message + r.x[0];", "ab?cd" },
/* 22 */ { "var a = [3, 1, 2].sort(); var b = [\"b\" + \"b\", \"a\" + \"a\"]; b.sort(); b.pushFront(\"f\" + \"r\"); b.push(\"n\" + \"1\"); var d = b.reverse(); var res = d.join(\"\") + a.join(\"\");", "n1aabbfr123" },
/* 23 */ { "var m = %{\"a\" : 1}; var o = %{}; o[\"b\" + \"c\"] = \"d\" + \"e\"; var p = m.merge(o); m.clear(); o = nil; var ks = p.keys(); var vs = p.values(); var q = p.dup(); p.clear(); var res = ks.join(\"\") + vs.join(\"\") + String(q.size()) + q[\"b\" + \"c\"];", "bcade12de" },
/* 24 */ { "var re = Regex(\"a(b+)\"); var r = \"\"; for (var i = 0; i < 2; i += 1) { r = r + String(re.match(\"xabb\")); } var res = r;", "11" },
/* 25 */ { "class T { go() { var me = this; return [1, 2].map() -> (x) { me.h(x); }; } h(x) { return \"h\" + String(x); } } var res = T().go().join(\"\");", "h1h2" },
/* 26 */ { "var st = []; fun tr() { try { return \"r\" + \"1\"; } catch (Error e) { } } st << tr(); class V { class mk() { return this(); } init() { this.q = [\"q\" + \"q\"]; } } var v = V.mk(); var w = v.q; v = nil; st << w[0]; var res = st.join(\"\");", "r1qq" },
/* 27 */ { "var s = \"a\" + \"b\"; var c = [s]; s << (\"c\" + \"d\"); s[0] = \"z\"; c << s.substr(1, 2); c << s.inspect(); c << \"${s}${c[1]}\"; var res = c.join(\"\");", "zbcdbc\"zbcd\"zbcdbc" },
/* 28 */ { "class Fin { init(l) { this.l = l; } } var log = [\"s\" + \"t\"]; var f = Fin(log); GC.setFinalizer(f, fun(o) { o.l << (\"f\" + \"n\"); }); f = nil; var t = [\"t\" + \"1\"]; var res = t[0] + log[0];", "t1st" },
/* 29 */ { "fun o(a) { return fun(b) { return fun(c) { return a[0] + b + c; }; }; } var p = o([\"a\" + \"1\"]); var q = p(\"b\" + \"2\"); p = nil; var u = [\"u\" + \"v\"]; var res = q(\"c\" + \"3\");", "a1b2c3" },
/* 30 */ { "class St { class make() { this.h = %{}; this.h[\"k\" + \"1\"] = [\"v\" + \"1\"]; return this; } class get(k) { return this.h[k][0]; } } St.make(); var res = St.get(\"k\" + \"1\");", "v1" },
/* 31 */ { "var o = Object(); fun mm() { return \"s\" + \"m\"; } o.p = mm; var q = o.p; alias(mm, \"nn\"); var res = q() + nn();", "smsm" },
/* 32 */ { "var a = [\"b\" + \"1\", \"a\" + \"2\"]; var s = a.select() -> (x) { x == \"a\" + \"2\"; }; var r = a.reject() -> (x) { x == \"a\" + \"2\"; }; var f = a.find() -> (x) { x == \"b\" + \"1\"; }; var res = s[0] + r[0] + f;", "a2b1b1" },
/* 33 */ { "fun add(el, last) { var z = \"z\" + String(el); return last + el; } var l = [\"x\" + \"1\", \"y\" + \"2\", \"w\" + \"4\"]; var rd = [1,2].reduce(3, &add); var res = l.first() + l.last() + String(rd); var p = l.pop(); var q = l.popFront(); l << (\"n\" + \"1\"); res = res + p + q + l.join(\"\");", "x1w46w4x1y2n1" },
/* 34 */ { "var a = [[\"c\" + \"1\", 3], [\"d\" + \"2\", 1]]; var s = a.sortBy() -> (x, y) { var t = \"t\" + x[0]; x[1] - y[1]; }; var res = a[0][0] + a.inspect() + String(a);", "c1[[\"c1\",3],[\"d2\",1]][[c1,3],[d2,1]]" },
/* 35 */ { "var m = %{}; m[\"k\" + \"1\"] = \"v\" + \"1\"; m[\"k\" + \"2\"] = [\"v\" + \"2\"]; var o = \"\"; m.each() -> (k, v) { o = o + k; }; var q = m.map() -> (k, v) { k + \"z\"; }; var res = o + q.join(\"\") + String(m);", "k2k1k2zk1z{k2 => [v2], k1 => v1}" },
/* 36 */ { "var m = %{\"a\": \"1\" + \"1\"}; var n = %{\"a\": \"2\" + \"2\", \"b\": \"3\" + \"3\"}; var p = m.mergeWith(n) -> (k, x, y) { x + y + k; }; var res = p[\"a\"] + p[\"b\"];", "2233" },
/* 37 */ { "var m = %{\"a\": [\"1\" + \"1\"], \"b\": [\"2\" + \"2\"]}; var n = m.slice(\"a\"); m.delete(\"a\"); var k = [[\"p\" + \"q\"]]; m[k] = \"kk\" + \"v\"; m.rehash(); var res = n[\"a\"][0] + m[[[\"p\" + \"q\"]]] + m[\"b\"][0];", "11kkv22" },
/* 38 */ { "class A { init(n) { this.n = n; } hi(x) { return this.n + x + yield(\"w\" + \"1\"); } } var a = A(\"n\" + \"1\"); a.setProperty(\"p\" + \"r\", [\"v\" + \"1\"]); var res = a.hi(\"x\" + \"2\") -> (y) { y + \"!\"; }; res = res + a.getProperty(\"pr\")[0] + String(a.send(\"hasProperty\", \"p\" + \"r\"));", "n1x2w1!v1true" },
/* 39 */ { "var o = Object(); module Ext { ex() { return \"e\" + this.n; } } o.extend(Ext); o.n = \"n\" + \"1\"; var c = o.singletonClass; var res = o.ex() + c.name;", "en1<instance Object> (meta)" },
/* 40 */ { "var kl = Class(); kl.instanceEval(\"m1() { return \\\"m\\\" + this.n; }\"); var k = kl(); k.n = \"z\" + \"1\"; class L < kl { m1() { return super.m1() + \"s\"; } } var l = L(); l.n = \"y\" + \"1\"; var res = k.m1() + l.m1();", "mz1my1s" },
/* 41 */ { "class A { get { return \"b\" + this.n; } old() { return \"o\" + \"1\"; } } A.aliasMethod(\"old\", \"nw\"); class B < A { get { return super.get() + \"s\"; } } var b = B(); b.n = \"n\" + \"2\"; var res = b.get + b.nw() + b.class.name + B.ancestors().inspect();", "bn2so1B[B,A,Object]" },
/* 42 */ { "class S < String { sh() { return String(this) + \"!\" + this.x; } } var s = S(\"a\" + \"b\"); s.x = \"x\" + \"y\"; class T < Array { tot() { return this.join(\"-\") + this.y; } } var t = T(); t << (\"q\" + \"1\"); t.push(\"r\" + \"s\"); t.y = \"y\" + \"z\"; var res = s.sh() + t.tot();", "ab!xyq1-rsyz" },
/* 43 */ { "var s = \"hello\" + \"w\"; s.insertAt(\"X\" + \"Y\", 2); s[0] = \"J\"; var p = s.split(\"X\"); var u = s.rest(3) + String(s.index(\"Y\")) + s.padRight(9, \".\"); var c = \" a \" + \"b \"; c.compact(); var res = s + p.join(\"|\") + u + c;", "JeXYllow.Je|YllowYllow3JeXYllow. a b " },
/* 44 */ { "var t = \"v\" + \"1\"; var h = <<<EOS\nheredoc text\nEOS\n; var res = h + t;", "heredoc text\nv1" },
/* 45 */ { "var out = [\"o\" + \"0\"]; var m = Mutex(); fun worker() { m.lock(); out.push(\"w\" + \"1\"); m.unlock(); return \"z\" + \"9\"; } var th = newThread(worker); m.lock(); out.push(\"m\" + \"2\"); m.unlock(); joinThread(th); out.push(\"e\" + \"3\"); var res = String(out.size()) + out[0] + out[3];", "4o0e3" },
/* 46 */ { "fun mk(f, k) { return fun(x) { if (k == 0) { return \"b\" + x; } return f(x) + \".\"; }; } var g = mk(mk(nil, 0), 1); var h = mk(g, 2); var res = h(\"a\" + \"1\") + g(\"b\" + \"2\");", "ba1..bb2." },
/* 47 */ { "fun f() { var t = \"a\" + \"b\"; fun() { return t; }; var u = \"x\" + \"y\"; for (var i = 0; i < 2; i += 1) { var z = \"i\" + String(i); fun() { return z + t; }; } return t + u; } var q = [\"q\" + \"1\"]; var res = f() + q[0];", "abxyq1" },
/* 48 */ { "class E2 < Error { } fun a() { try { throw E2(\"m\" + \"1\"); } catch (E2 e) { throw Error(e.message + \"2\"); } ensure { var z = \"en\" + \"s\"; } } var r = \"\"; try { a(); } catch (Error e) { r = e.message + \"x\"; } else { r = \"no\"; } var res = r;", "m12x" },
/* 49 */ { "var r = \"\"; foreach (i in [1, 2, 3]) { var s = \"i\" + String(i); try { if (i == 2) { continue; } if (i == 3) { break; } r = r + s; } ensure { r = r + (\"e\" + String(i)); } } var res = r;", "i1e1" },
/* 50 */ { "var r = \"\"; fun it(&b) { var l = \"l\" + \"1\"; b.yield(l); b.yield(\"l\" + \"2\"); return \"ret\" + l; } var v = it() -> (x) { if (x == \"l1\") { continue; } r = r + x; }; var res = r + v;", "l2retl1" },
/* 51 */ { "class Ev { init() { this.v = \"v\" + \"1\"; } go() { var loc = \"l\" + \"1\"; eval(\"var u = loc + this.v; loc = u + \\\"e\\\";\"); return loc; } } var res = Ev().go();", "l1v1e" },
/* 52 */ { "class P { init(x) { this.x = x; } opEquals(o) { return this.x == o.x; } opAdd(o) { return P(this.x + o.x); } opIndexGet(i) { return this.x + i; } opIndexSet(i, v) { this.x = i + v; } toString() { return \"P\" + this.x; } } var p = P(\"a\" + \"1\") + P(\"b\" + \"2\"); var s = p[\"k\" + \"1\"]; p[\"i\" + \"2\"] = \"v\" + \"3\"; var e = p == P(\"i2\" + \"v3\"); var res = s + String(p) + \"${e}\";", "a1b2k1Pi2v3true" },
/* 53 */ { "var a = \"a\" + \"1\"; var b = a; a = nil; var c = [b, [b]].dup(); b = nil; var d = c.inspect(); var e = c.reverse(); c.clear(); var res = d + e[1] + e[0][0];", "[\"a1\",[\"a1\"]]a1a1" },
/* 54 */ { "module M { X = [\"x\" + \"1\"]; class sm(y) { return \"s\" + y; } class Inner { v() { return \"iv\" + \"1\"; } } } var res = M::X[0] + M.sm(\"y\" + \"2\") + M::Inner().v();", "x1sy2iv1" },
/* 55 */ { "class Log { init() { this.l = []; } opShovelLeft(x) { this.l.push(x + \".\"); return this; } } var g = Log(); g << (\"a\" + \"\"); (g << (\"b\" + \"1\")) << (\"c\" + \"2\"); var res = g.l.join(\"\");", "a.b1.c2." },
/* 56 */ { "var c = [\"o\"]; var j1 = \"j\" + \"1\"; c[0] = (\"n\" + \"1\"); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c[0];", "n1" },
/* 57 */ { "var c = [\"o\"]; var j1 = \"j\" + \"1\"; c.push((\"n\" + \"1\")); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c[1];", "n1" },
/* 58 */ { "var c = [\"o\"]; var j1 = \"j\" + \"1\"; c << (\"n\" + \"1\"); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c[1];", "n1" },
/* 59 */ { "var c = [\"o\"]; var j1 = \"j\" + \"1\"; c.pushFront((\"n\" + \"1\")); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c[0];", "n1" },
/* 60 */ { "var c = %{}; var j1 = \"j\" + \"1\"; c[\"k\" + \"1\"] = (\"n\" + \"1\"); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c[\"k1\"];", "n1" },
/* 61 */ { "var c = %{}; var j1 = \"j\" + \"1\"; c.mergeWith(%{\"k\": \"x\"}); c[\"k\"] = (\"n\" + \"1\"); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c[\"k\"];", "n1" },
/* 62 */ { "var c = %{}; var j1 = \"j\" + \"1\"; c.mergeWith(%{\"k\": (\"n\" + \"1\")}); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c[\"k\"];", "n1" },
/* 63 */ { "class C { } var c = C(); var j1 = \"j\" + \"1\"; c.p = (\"n\" + \"1\"); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c.p;", "n1" },
/* 64 */ { "class C { } var c = C(); var j1 = \"j\" + \"1\"; c.setProperty(\"p\" + \"q\", (\"n\" + \"1\")); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c.pq;", "n1" },
/* 65 */ { "class C { } var j1 = \"j\" + \"1\"; C.p = (\"n\" + \"1\"); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = C.p;", "n1" },
/* 66 */ { "module Mo { } var j1 = \"j\" + \"1\"; Mo.p = (\"n\" + \"1\"); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = Mo.p;", "n1" },
/* 67 */ { "class C { v=(x) { this.w = x; } } var c = C(); var j1 = \"j\" + \"1\"; c.v = (\"n\" + \"1\"); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c.w;", "n1" },
/* 68 */ { "fun mk() { var u = nil; return [fun(x) { u = x; }, fun() { return u; }]; } var c = mk(); var j1 = \"j\" + \"1\"; c[0]((\"n\" + \"1\")); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c[1]();", "n1" },
/* 69 */ { "fun mk() { var u = \"o\" + \"p\"; return [fun() { u = \"n\" + \"1\"; return 1; }, fun() { return u; }]; } var c = mk(); var j1 = \"j\" + \"1\"; c[0](); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c[1]();", "n1" },
/* 70 */ { "class C { } var c = C(); module Mo { hi() { return \"n\" + \"1\"; } } var j1 = \"j\" + \"1\"; c.extend(Mo); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c.hi();", "n1" },
/* 71 */ { "class C { } var c = C(); var j1 = \"j\" + \"1\"; module Mo { hi() { return \"n\" + \"1\"; } } C.include(Mo); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c.hi();", "n1" },
/* 72 */ { "class C { } var j1 = \"j\" + \"1\"; C.defineMethod(\"hi\", fun() { return \"n\" + \"1\"; }); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = C().hi();", "n1" },
/* 73 */ { "class C { hi() { return \"n\" + \"1\"; } } var j1 = \"j\" + \"1\"; C.aliasMethod(\"hi\", \"h\" + \"o\"); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = C().ho();", "n1" },
/* 74 */ { "fun mk() { var u = \"o\" + \"p\"; return Binding(); } var c = mk(); var j1 = \"j\" + \"1\"; c.localVariableSet(\"u\", (\"n\" + \"1\")); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c.localVariableGet(\"u\");", "n1" },
/* 75 */ { "fun mk() { var u = \"o\" + \"p\"; return Binding(); } var c = mk(); var j1 = \"j\" + \"1\"; c.eval(\"u = \\\"n\\\" + \\\"1\\\";\"); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c.localVariableGet(\"u\");", "n1" },
/* 76 */ { "var c = Object(); var j1 = \"j\" + \"1\"; class C { } C.k = (\"n\" + \"1\"); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = C.k;", "n1" },
/* 77 */ { "class C { } var j1 = \"j\" + \"1\"; class C { X = \"n\" + \"1\"; } var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = C::X;", "n1" },
/* 78 */ { "class C { } var j1 = \"j\" + \"1\"; class C { class D { hi() { return \"n\" + \"1\"; } } } var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = C::D().hi();", "n1" },
/* 79 */ { "class C { } var j1 = \"j\" + \"1\"; class C { hi() { return \"n\" + \"1\"; } } var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = C().hi();", "n1" },
/* 80 */ { "class C { } var c = C(); var j1 = \"j\" + \"1\"; in (c) { hi() { return \"n\" + \"1\"; } } var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c.hi();", "n1" },
/* 81 */ { "class C { } var j1 = \"j\" + \"1\"; class C { class hi() { return \"n\" + \"1\"; } } var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = C.hi();", "n1" },
/* 82 */ { "class C { } var j1 = \"j\" + \"1\"; class C { g { return \"n\" + \"1\"; } } var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = C().g;", "n1" },
/* 83 */ { "var c = Error(\"m\" + \"1\"); var j1 = \"j\" + \"1\"; c.data = (\"n\" + \"1\"); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c.data;", "n1" },
/* 84 */ { "var c = \"o\" + \"p\"; var j1 = \"j\" + \"1\"; c.q = (\"n\" + \"1\"); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c.q;", "n1" },
/* 85 */ { "var c = [\"o\"]; var j1 = \"j\" + \"1\"; c.q = (\"n\" + \"1\"); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c.q;", "n1" },
/* 86 */ { "var c = [[\"o\"]]; var j1 = \"j\" + \"1\"; c[0][0] = (\"n\" + \"1\"); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c[0][0];", "n1" },
/* 87 */ { "var c = Map(); var j1 = \"j\" + \"1\"; c[(\"n\" + \"1\")] = 1; var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c.keys()[0];", "n1" },
/* 88 */ { "var c = [\"a\", \"b\"]; var j1 = \"j\" + \"1\"; foreach (i in [0, 1]) { c[i] = \"n\" + String(i + 1); } var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c[0];", "n1" },
/* 89 */ { "class C { init() { this.l = []; } add(x) { this.l << x; } } var c = C(); var j1 = \"j\" + \"1\"; c.add((\"n\" + \"1\")); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c.l[0];", "n1" },
/* 90 */ { "var c = Thread.current(); var j1 = \"j\" + \"1\"; c[\"k\"] = (\"n\" + \"1\"); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c[\"k\"];", "n1" },
/* 91 */ { "class It { iterNext() { var r = this.v; this.v = nil; return r; } iter() { return this; } } var c = It(); var j1 = \"j\" + \"1\"; c.v = (\"n\" + \"1\"); var d = Iterator(c); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = d.next();", "n1" },
/* 92 */ { "var q = [\"x\" + \"y\"]; var j1 = \"j\" + \"1\"; var c = Iterator([\"n\" + \"1\"]); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c.next();", "n1" },
/* 93 */ { "class C { m() { return this.n; } } var q = \"x\" + \"y\"; var j1 = \"j\" + \"1\"; var c = C(); c.n = (\"n\" + \"1\"); c = c.m; var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c();", "n1" },
/* 94 */ { "class Fin { init(l) { this.l = l; } } var log = []; fun mk() { return Fin(log); } var f = mk(); var j1 = \"j\" + \"1\"; GC.setFinalizer(f, fun(o) { o.l.push(\"n\" + \"1\"); }); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; f = nil; GC.collect(); var res = \"n1\"; if (log.size > 0) { res = log[0]; }", "n1" },
/* 95 */ { "autoload(\"Nn\" + \"1\", \"n\" + \"2\"); var j = \"j\" + \"1\"; var r = \"\"; try { Nn1; } catch (Error e) { r = e.message; } var res = r;", "File 'n2' not found" },
/* 96 */ { "fun mk() { var u = nil; var f = fun() { return u; }; var j = \"j\" + \"1\"; u = \"n\" + \"1\"; return f; } var c = mk(); var j2 = \"j\" + \"2\"; var j3 = \"j\" + \"3\"; var res = c();", "n1" },
/* 97 */ { "fun mk(l) { for (var i = 0; i < 2; i += 1) { var u = nil; l.push(fun() { return u; }); var j = \"j\" + \"1\"; u = \"n\" + String(i); if (i == 1) { continue; } j = \"k\" + \"2\"; } } var c = []; mk(c); var j3 = \"j\" + \"3\"; var res = c[1]();", "n1" },
};
#ifndef PSET
#define PSET {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93,94,95,96,97}
#endif
static const int ps[] = PSET;
int harness(void) {
  hx_init(); sym_inst_limit(60000000, 1);
  int p = ps[sym_choice("program", sizeof ps / sizeof *ps)];
  sym_note(P[p].src);
#ifdef EXPECT
  sym_check(hx_run(P[p].src), "program runs to its end"); Value w = hx_glob("res"); printf("%d: %s\n", p, IS_STRING(w) ? AS_STRING(w)->chars : "?"); sym_note(IS_STRING(w) ? AS_STRING(w)->chars : "?"); sym_check(0, "show"); sym_done();
#endif
  left = NGC;
  for (int i = 0; i < NGC; i++) { at[i] = sym_int(i ? "second collection" : "first collection", 1, 2000); if (i) sym_assume(at[i] > at[i - 1]); }
#ifdef COMPILING
  armed = 1;
#endif
  ObjFunction *f = hx_compile(P[p].src);
  sym_check(f != NULL, "program compiles");
  if (!f) sym_done();
  hideFromGC(TO_OBJ(f));
  armed = 1;
  InterpretResult r = interpret(f, "harness");
  armed = 0;
  sym_check(r == INTERPRET_OK, "program runs to its end");
  sym_cover(left == 0 ? "collected" : "not collected");
  Value v = hx_glob("res");
  int ok = P[p].want && hx_is_str(v, P[p].want, strlen(P[p].want));
  if (!ok) sym_note(IS_STRING(v) ? AS_STRING(v)->chars : "(not a string)");
  sym_check(ok, "the program's result is the one without a collection");
  sym_done();
}
