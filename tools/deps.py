"""Proves the contracts assumed for simple-bytes, crc and uuid against those crates' own source.

usage: deps.py GEN.rs OUT.rs
GEN.rs is what vextract wrote.  Its modules `vsb` and `vcrc` (contracts/10_shim.rs)
only state contracts: the bodies are `external_body`.  This program writes OUT.rs:
GEN.rs with `vsb` replaced by a module whose function bodies are those of
simple-bytes, under the very same contracts, and with modules `vcrcdep` and
`vuuiddep` added that hold the function bodies of crc and uuid.  The sources are those of the versions
/repo/Cargo.lock names, from cargo's source cache.
`verus --verify-only-module ...` (MODULES) then checks every body.
"""
import glob
import os
import re
import sys


MODULES = ("vsb", "vcrcdep", "vuuiddep")


def crate_dir(repo, name):
    lock = open(os.path.join(repo, "Cargo.lock")).read()
    v = re.search(r'name = "%s"\nversion = "([^"]+)"' % name, lock).group(1)
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    d = sorted(glob.glob(os.path.join(home, "registry/src/*/%s-%s" % (name, v))))
    if not d:
        raise FileNotFoundError("source of %s %s" % (name, v))
    return name + " " + v, os.path.join(d[0], "src")


def template(name):
    return open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "deps", name)).read()


def block(s, i):
    """the text of the {...} that starts at or after i"""
    i = s.index("{", i)
    d = 0
    for j in range(i, len(s)):
        if s[j] == "{":
            d += 1
        elif s[j] == "}":
            d -= 1
            if d == 0:
                return s[i:j + 1]
    raise ValueError


def uncomment(s):
    s = re.sub(r"^\s*//.*$", "", s, flags=re.M)
    return re.sub(r"//[^\n\"]*$", "", s, flags=re.M)


def fn_body(scope, name):
    m = re.search(r"\bfn " + name + r"\s*[(<]", scope)
    if not m:
        raise KeyError(name)
    return block(scope, m.end())


class Crate:
    def __init__(self, src, names):
        self.f = {n: uncomment(open(os.path.join(src, n + ".rs")).read()) for n in names}
        self.used = []

    def body(self, file, header, name):
        s = self.f[file]
        if header == "-":
            self.used.append("%s.rs: %s" % (file, name))
            return fn_body(s, name)
        i = s.index(header)
        self.used.append("%s.rs: %s :: %s" % (file, " ".join(header.split()), name))
        return fn_body(block(s, i + len(header) - 1), name)

    def macro(self, file, name):
        """(fn body text of $try_name, of $name) in terms of name/type/num, for an invocation that defines `name`"""
        s = self.f[file]
        m = re.search(r"\b(\w+)!\((%s|\w+, %s),[^)]*\);" % (name, name), s)
        args = [a.strip() for a in m.group(0)[m.group(0).index("(") + 1:-2].split(",")]
        d = re.search(r"macro_rules! %s \{" % m.group(1), s)
        arms = block(s, d.start())
        arm = arms[arms.index("$type_str:expr"):]
        first = args[0] == name
        b = fn_body(arm, r"\$name" if first else r"\$try_name")
        for k, v in zip(["$name", "$try_name", "$type", "$num"], args + [""] * (4 - len(args))):
            b = re.sub(re.escape(k) + r"\b", v, b)
        b = re.sub(r"concat!\((\"[^\"]*)\", \$type_str\)", lambda x: x.group(1) + args[2] + '"', b)
        self.used.append("%s.rs: %s!(%s) %s" % (file, m.group(1), ", ".join(args), name))
        return b


# the only changes made to the text of a body
REWRITES = [
    (r"\.try_into\(\)", ".v_try_into()", "slice to array: through the contract of vsl::VTryInto"),
    (r"\bu(8|16|32|64)::from_(le|be)_bytes", r"v_u\1_from_\2_bytes", "integer from bytes: through the contracts below"),
    (r"\bnum\.to_(le|be)_bytes\(\)", r"VBytes::v_to_\1(num)", "integer to bytes: through the contracts below"),
    (r"\|_\|", "|_e|", "Verus wants a name for a closure parameter"),
    (r"&\*self\.inner", "self.inner", ""),
]


def rewrite(b):
    for a, c, _ in REWRITES:
        b = re.sub(a, c, b)
    return b


def simple_bytes(g, repo):
    version, src = crate_dir(repo, "simple-bytes")
    c = Crate(src, ("cursor", "bytes", "bytes_array", "bytes_read", "bytes_write", "bytes_seek"))
    i = g.index("pub mod vsb {")
    j = g.index("\n}\n", i) + 3
    mod = g[i:j]
    tpl = template("simple_bytes.rs.in")

    def shared(m):
        """a trait of contracts/10_shim.rs, its text as it is; provided methods get the crate's body"""
        name, file = m.group(1), m.group(2)
        t = mod[mod.index("pub trait " + name):]
        t = t[:t.index(block(t, 0)) + len(block(t, 0))]
        s = c.f[file]
        decl = block(s, s.index("pub trait " + name + " {"))
        res = []
        for part in re.split(r"(?<=;)\n", t[t.index("{") + 1:-1]):
            f = re.search(r"\bfn (\w+)", part)
            if f:
                n = f.group(1)
                d = re.search(r"\bfn " + n + r"\b[^;{]*([;{])", decl)
                if d and d.group(1) == "{":
                    part = part.rstrip().rstrip(";") + "\n        " + rewrite(fn_body(decl, n))
                    c.used.append("%s.rs: trait %s :: %s" % (file, name, n))
                elif not d and re.search(r"!\(%s," % n, decl):
                    part = part.rstrip().rstrip(";") + "\n        " + rewrite(c.macro(file, n))
            res.append(part)
        extra = m.group(3)
        return t[:t.index("{") + 1] + "\n".join(res) + extra + "    }"

    def fill(m):
        b = rewrite(c.body(m.group(1), m.group(2), m.group(3)))
        if m.group(4):
            k = b.rindex("Ok(())")  # the proof text goes before the result
            b = b[:k] + m.group(4) + "\n" + b[k:]
        return b

    def fillm(m):
        return rewrite(c.macro(m.group(1), m.group(2)))

    def inherent(m):
        """`header` + contract of one inherent function, exactly as in 10_shim.rs"""
        k = mod.index(m.group(1))
        t = mod[k:]
        k = t.index("pub fn " + m.group(2))
        return t[k:t.index("{ unimplemented!() }", k)]

    t = tpl
    t = re.sub(r"@CONTRACT (.*?) :: (\w+)@", inherent, t)
    t = re.sub(r"@MACRO (\w+) (\w+)@", fillm, t)
    t = re.sub(r"@BODY (\w+) ([^@]*?) :: (\w+)(?: \+\+ ((?s:.*?)))?@(?=\n)", fill, t)
    t = re.sub(r"@TRAIT (\w+) (\w+)\n(.*?)@END", shared, t, flags=re.S)
    head = mod[:mod.index("pub trait BytesRead")]
    # BArg stands for AsRef<[u8]>: here it has the function as well
    head = head.replace("pub trait BArg { spec fn ab(&self) -> Seq<u8>; }",
                        "pub trait BArg { spec fn ab(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.ab(); }")
    head = re.sub(r"(impl(?:<[^>]*>)? BArg for (.+?) \{ open spec fn ab\(&self\) -> Seq<u8> \{ self@ \}) \}",
                  lambda m: m.group(1) + " #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }", head)
    return g[:i] + head + t + "}\n" + g[j:], version, c.used


def hints(b, text):
    """the body with the proof text of a template: @START at its start, @LOOP n before the nth loop's brace, @LSTART n after it"""
    heads = [x.start() for x in re.finditer(r"\b(?:while|loop)\b", b)]
    todo = []  # (position, text)
    for d in re.finditer(r"@(START|LOOP (\d+)|LSTART (\d+)) (.*)", text):
        if d.group(1) == "START":
            todo.append((b.index("{") + 1, " " + d.group(4)))
        elif d.group(2):
            todo.append((b.index("{", heads[int(d.group(2))]), "\n" + d.group(4) + "\n"))
        else:
            todo.append((b.index("{", heads[int(d.group(3))]) + 1, " " + d.group(4)))
    for p, x in sorted(todo, reverse=True):
        b = b[:p] + x + b[p:]
    return b + "\n"


FILL = r"@BODY (\w+) (.*?) :: (\w+)\n((?:[ \t]*@(?:START|LOOP \d+|LSTART \d+) .*\n)*)"


def crc(g, repo):
    version, src = crate_dir(repo, "crc")
    cversion, csrc = crate_dir(repo, "crc-catalog")
    c = Crate(src, ("crc32", "util", "table"))
    alg = open(os.path.join(csrc, "algorithm.rs")).read()
    const = re.search(r"pub const CRC_32_ISO_HDLC: [^;]*;", alg).group(0)

    def fill(m):
        return hints(c.body(m.group(1), m.group(2), m.group(3)), m.group(4))

    t = template("crc.rs.in").replace("@CONST@", const)
    t = re.sub(FILL, fill, t)
    c.used.append("algorithm.rs: CRC_32_ISO_HDLC")
    i = g.index("pub mod vsb {")
    return g[:i] + t + "\n" + g[i:], version + ", " + cversion, c.used


# the only changes made to the text of a body of uuid
UUID_REWRITES = [
    (r"convert::TryInto::try_into\(&bytes\[8\.\.16\]\)", "v_try_ref(&bytes[8..16])", "slice to array reference: through the contract of v_try_ref"),
    (r"\| \(38, \[[^\]]*\]\)\s*\| \(45, \[[^\]]*\]\) => \{\s*parse_hyphenated\(s\)\s*\}",
     "=> { parse_hyphenated(s) } (38, s) => any_form(s), (45, s) => any_form(s),", "slice patterns: those two forms may give anything"),
    (r"match \[((?:s\[\d+\](?:, )?)+)\] \{\s*\[((?:b'.'(?:, )?)+)\] =>", r"match (\1) { (\2) =>", "array of bytes matched against literals: as a tuple"),
    (r"\bHEX_TABLE\[", "hex[", "constant: through the function that computes it"),
    (r"\bSHL4_TABLE\[", "shl4[", "constant: through the function that computes it"),
    (r"break buf;", "return buf;", "the block of a constant as the body of a function"),
]


def uuid(g, repo):
    version, src = crate_dir(repo, "uuid")
    c = Crate(src, ("builder", "lib", "parser"))

    def change(b):
        for x, y, _ in UUID_REWRITES:
            b = re.sub(x, y, b)
        return b

    def fill(m):
        f, header, name = m.group(1), m.group(2), m.group(3)
        if header == "impl Uuid {":  # several such blocks: the first that has the function
            s = c.f[f]
            m2 = re.search(r"\n    pub (?:const )?fn " + name + r"\s*[(<]", s)
            c.used.append("%s.rs: Uuid :: %s" % (f, name))
            return hints(change(block(s, m2.end())), m.group(4))
        if header == "-":  # not one of the methods
            m2 = re.search(r"(?m)^(?:const )?fn " + name + r"\s*[(<]", c.f[f])
            c.used.append("%s.rs: %s" % (f, name))
            return hints(change(block(c.f[f], m2.end())), m.group(4))
        return hints(change(c.body(f, header, name)), m.group(4))

    def table(m):
        f, name = m.group(1), m.group(2)
        s = c.f[f]
        d = re.search(r"const %s: &(\[u8; 256\]) = &\{" % name, s)
        c.used.append("%s.rs: %s" % (f, name))
        return "fn %s() -> (r: %s)\n%s%s" % (name.lower(), d.group(1), m.group(3), hints(change(block(s, d.end() - 1)), m.group(4)))

    t = template("uuid.rs.in")
    t = re.sub(r"@TABLE (\w+) (\w+)\n(.*\n)((?:[ \t]*@(?:START|LOOP \d+|LSTART \d+) .*\n)*)", table, t)
    t = re.sub(FILL, fill, t)
    i = g.index("pub mod vsb {")
    return g[:i] + t + "\n" + g[i:], version, c.used


def main(gen, out, repo="/repo"):
    g = open(gen).read()
    g, v1, u1 = simple_bytes(g, repo)
    g, v2, u2 = crc(g, repo)
    g, v3, u3 = uuid(g, repo)
    open(out, "w").write(g)
    return v1 + ", " + v2 + ", " + v3, u1 + u2 + u3


if __name__ == "__main__":
    v, u = main(sys.argv[1], sys.argv[2])
    print(v, len(u))
    for x in u:
        print(" ", x)
