"""Mechanical extraction: clang's own AST of /repo's current main.c (one translation unit), no edits."""
import json, os, re, subprocess, tempfile, hashlib
REPO = os.environ.get("SPVC_REPO", "/repo")
SRC = "source/c-precompiled/sph-sp/main.c"
LEMMAS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "lemmas.c")

class Unsupported(Exception):
    """construct outside the verifier's reach (never reported as a violation by itself)"""

BASE = {
    "void": ("void",), "char": ("int", 8, False), "signed char": ("int", 8, True), "unsigned char": ("int", 8, False),
    "short": ("int", 16, True), "unsigned short": ("int", 16, False), "int": ("int", 32, True), "unsigned int": ("int", 32, False),
    "long": ("int", 64, True), "unsigned long": ("int", 64, False), "long long": ("int", 64, True),
    "unsigned long long": ("int", 64, False), "_Bool": ("int", 1, False), "float": ("float",), "double": ("double",),
    "long double": ("ldouble",), "__int128": ("int", 128, True), "unsigned __int128": ("int", 128, False),
    "__uint128_t": ("int", 128, False), "__int128_t": ("int", 128, True), "__builtin_va_list": ("void",),
}
VOID = ("void",); DOUBLE = ("double",); INT32 = ("int", 32, True); U64 = ("int", 64, False); U32 = ("int", 32, False); U8 = ("int", 8, False)

def include_flags(scratch):
    inc = os.path.join(scratch, "inc"); os.makedirs(inc, exist_ok=True)
    ln = os.path.join(inc, "sph")
    if not os.path.islink(ln): os.symlink(REPO + "/source/c/foreign/sph-sc-lib/sph-sp", ln)
    return ["-funsigned-char", "-std=c17", "-I" + REPO + "/source/c/foreign", "-I" + REPO + "/source/c/foreign/sph-sc-lib",
            "-I" + REPO + "/source/c-precompiled", "-I" + inc]

class Unit:
    def __init__(self, scratch, src=SRC):
        # the translation unit of the library, followed by ghost code that calls it (lemmas)
        tu = os.path.join(scratch, "unit.c")
        open(tu, "w").write(f'#include "{REPO}/{src}"\n#include "{LEMMAS}"\n')
        cmd = ["clang"] + include_flags(scratch) + ["-Wno-everything", "-fsyntax-only", "-Xclang", "-ast-dump=json", tu]
        env = dict(os.environ); [env.pop(k, None) for k in ("CPATH", "C_INCLUDE_PATH")]
        r = subprocess.run(cmd, capture_output=True, env=env, cwd=REPO)
        if r.returncode != 0: raise RuntimeError("clang cannot parse the current tree:\n" + r.stderr.decode()[-2000:])
        self.ast = json.loads(r.stdout)
        self.typedefs = {}; self.records = {}; self.recbyid = {}; self.funcs = {}; self.decls = {}; self.globals = {}; self.enums = {}
        self.files = set()
        for n in self.ast["inner"]: self.top(n)

    # ---- top level
    def top(self, n):
        k = n.get("kind")
        if k == "TypedefDecl":
            rid = self._tag(n)
            self.typedefs[n["name"]] = (n["type"].get("qualType"), rid)
        elif k == "RecordDecl":
            if n.get("completeDefinition"):
                self.recbyid[n["id"]] = n
                if n.get("name"): self.records[n["name"]] = n
                for c in n.get("inner", []):
                    if c.get("kind") == "RecordDecl": self.top(c)
        elif k == "EnumDecl":
            v = -1
            for c in n.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    e = [x for x in c.get("inner", []) if x.get("kind") not in ("FullComment",)]
                    if e: v = self._enumval(e[0])
                    else: v += 1
                    self.enums[c["name"]] = v
        elif k == "FunctionDecl":
            self.decls[n["name"]] = n
            body = [x for x in n.get("inner", []) if x.get("kind") == "CompoundStmt"]
            if body: self.funcs[n["name"]] = n
        elif k == "VarDecl":
            old = self.globals.get(n["name"])
            if old is None or "init" in n: self.globals[n["name"]] = n
    def _enumval(self, e):
        if "value" in e: return int(e["value"])
        return self._enumval(e["inner"][0])
    def _tag(self, n):
        st = [n]
        while st:
            x = st.pop()
            if x.get("kind") == "RecordType" and "decl" in x: return x["decl"]["id"]
            if x.get("kind") in ("PointerType", "FunctionProtoType", "ConstantArrayType"): continue
            st.extend(x.get("inner", []))
        return None

    # ---- types
    _tc = None
    def ty(self, node):
        t = node["type"] if isinstance(node, dict) and "type" in node else node
        if isinstance(t, dict):
            s = t.get("qualType")
        else: s = t
        return self.parse(s)
    def parse(self, s):
        if self._tc is None: self._tc = {}
        r = self._tc.get(s)
        if r is None:
            toks = re.findall(r"[A-Za-z_][A-Za-z_0-9]*|\d+|\.\.\.|[()*\[\],]|\^", s)
            self.toks = toks; self.pos = 0
            saved = None
            r, i = self._type(toks, 0)
            self._tc[s] = r
        return r
    def _type(self, k, i):
        words = []
        tag = None
        while i < len(k) and re.match(r"[A-Za-z_]", k[i]):
            w = k[i]
            if w in ("const", "volatile", "restrict", "register", "__restrict"): pass
            elif w in ("struct", "union", "enum"): tag = w
            else: words.append(w)
            i += 1
        name = " ".join(words)
        if name in BASE and tag is None: b = BASE[name]
        elif tag == "enum": b = U32
        elif tag == "struct" and name in self.records: b = ("struct", self.records[name]["id"])
        elif tag == "struct" and name in self.typedefs and self.typedefs[name][1] in self.recbyid: b = ("struct", self.typedefs[name][1])
        elif tag == "struct": b = ("opaque", name)
        elif name in self.typedefs:
            qt, rid = self.typedefs[name]
            if rid and rid in self.recbyid: b = ("struct", rid)
            elif rid: b = ("struct", rid) if rid in self.recbyid else self._named(qt, name)
            else: b = self.parse(qt)
        elif name in self.records: b = ("struct", self.records[name]["id"])
        else: b = ("opaque", name)
        return self._decl(k, i, b)
    def _named(self, qt, name):
        n = qt.replace("struct ", "").strip()
        if n in self.records: return ("struct", self.records[n]["id"])
        return ("opaque", name)
    def _decl(self, k, i, b):
        while i < len(k) and k[i] in ("*", "const", "restrict", "volatile", "__restrict"):
            if k[i] == "*": b = ("ptr", b)
            i += 1
        if i < len(k) and k[i] == "(":
            if i + 1 < len(k) and k[i + 1] in ("*", "^"):
                # function pointer (or pointer to array)
                j = i + 1; stars = 0
                while k[j] == "*" or k[j] in ("const", "restrict"): stars += k[j] == "*"; j += 1
                arr = None
                inner_suffix = []
                while k[j] != ")":
                    if k[j] == "[":
                        n = None
                        if k[j + 1] != "]": n = int(k[j + 1]); j += 1
                        inner_suffix.append(n); j += 2
                    else: raise Unsupported("type " + " ".join(k))
                j += 1
                t, j = self._suffix(k, j, b)
                for _ in range(stars): t = ("ptr", t)
                for n in reversed(inner_suffix): t = ("array", t, n)
                return t, j
            return self._suffix(k, i, b)
        return self._suffix(k, i, b)
    def _suffix(self, k, i, b):
        if i < len(k) and k[i] == "[":
            dims = []
            while i < len(k) and k[i] == "[":
                n = None; j = i + 1
                if k[j].isdigit(): n = int(k[j])
                while k[j] != "]": j += 1
                dims.append(n); i = j + 1
            for n in reversed(dims): b = ("array", b, n)
            return b, i
        if i < len(k) and k[i] == "(":
            ps = []; i += 1
            while k[i] != ")":
                if k[i] == ",": i += 1; continue
                if k[i] == "...": ps.append(("...",)); i += 1; continue
                p, i = self._type(k, i); ps.append(p)
            return ("func", b, tuple(ps)), i + 1
        return b, i

    def fields(self, st):
        """[(name, type)]"""
        n = self.recbyid[st[1]]
        return [(c["name"], self.ty(c)) for c in n.get("inner", []) if c.get("kind") == "FieldDecl"]
    def tname(self, t):
        if t[0] == "struct": return self.recbyid[t[1]].get("name") or next((k for k, v in self.typedefs.items() if v[1] == t[1]), "anon")
        if t[0] == "int": return ("i" if t[2] else "u") + str(t[1])
        if t[0] == "ptr": return self.tname(t[1]) + "*"
        return t[0]
    def sizeof(self, t):
        k = t[0]
        if k == "int": return max(1, t[1] // 8)
        if k == "double": return 8
        if k == "float": return 4
        if k == "ldouble": return 16
        if k in ("ptr",): return 8
        if k == "void": return 1
        if k == "array":
            if t[2] is None: raise Unsupported("sizeof of incomplete array")
            return t[2] * self.sizeof(t[1])
        if k == "struct":
            o = 0; al = 1
            for _, f in self.fields(t):
                a = self.align(f); al = max(al, a)
                o = (o + a - 1) // a * a + self.sizeof(f)
            return (o + al - 1) // al * al
        raise Unsupported(f"sizeof {t}")
    def align(self, t):
        if t[0] == "struct": return max([self.align(f) for _, f in self.fields(t)] or [1])
        if t[0] == "array": return self.align(t[1])
        return self.sizeof(t)
    _lay = None
    def leaves(self, t):
        """flattened leaf types of t, one per slot"""
        if self._lay is None: self._lay = {}
        r = self._lay.get(t)
        if r is None:
            if t[0] == "struct":
                r = []
                for _, f in self.fields(t): r += self.leaves(f)
            elif t[0] == "array":
                if t[2] is None: raise Unsupported("slots of incomplete array")
                r = self.leaves(t[1]) * t[2]
            else: r = [t]
            self._lay[t] = r
        return r
    def slots(self, t):
        if t[0] in ("opaque", "void", "func"): return 1
        return len(self.leaves(t))
    def field_off(self, st, name):
        o = 0
        for n, f in self.fields(st):
            if n == name: return o, f
            o += self.slots(f)
        raise KeyError(name)
    def field_byte_off(self, st, name):
        o = 0
        for n, f in self.fields(st):
            a = self.align(f); o = (o + a - 1) // a * a
            if n == name: return o
            o += self.sizeof(f)
        raise KeyError(name)

if __name__ == "__main__":
    u = Unit("/tmp/w")
    for f, n in u.funcs.items():
        try: u.parse(n["type"]["qualType"])
        except Exception as e: print(f, n["type"]["qualType"], repr(e))
    print(u.parse("sp_event_t"), [u.tname(x) for x in u.leaves(u.parse("sp_event_t"))], u.sizeof(u.parse("sp_event_t")))
    print(u.parse("status_t"), u.parse("status_t (*)(uint32_t, uint32_t, sp_block_t, struct sp_event_t *)"))
    print(u.parse("sp_wave_event_config_t"), u.slots(u.parse("sp_wave_event_config_t")), u.sizeof(u.parse("sp_wave_event_config_t")))
    print(u.enums)
