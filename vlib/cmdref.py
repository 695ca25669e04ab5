"""Reference command lines: templates as token lists, written from the documentation of the target kinds."""
import shlex

# lower case names are expanded to lists of arguments; (prefix, name, suffix) glue around a single argument
GCC_PCH = ["compiler", "f_pre", "incs", "f_common", "f_pchc", "f_lang", "-o", "<out>", "-c", "<in>"]
GCC_OBJ = ["compiler", "f_pre", "incs", "f_common", "f_pcho", "f_lang", "-o", "<out>", "-c", "<in>"]
GCC_EXE = ["cxx", "f_link", "objs", "-o", "<out>", "libdirs", "libs", "extlibs"]
GCC_STATIC = ["ar", "rcs", "<out>", "objs"]
GCC_DYN = ["cxx", "-shared", "f_link", "objs", "-o", "<out>"]
MINGW_DYN = ["cxx", "-shared", "f_link", "objs", "-o", "<out>", ("-Wl,--out-implib,", "<out>", ".a")]
MS_PCH = ["compiler", "f_pre", "incs", "f_common", ("/Yc", "<in>", ""), ("/FI", "<in>", ""), ("/Fp", "<out>", ""), "f_pchc", "f_lang", ("/Fo", "<pchobj>", ""), "/c", "<insrc>"]
MS_OBJ = ["compiler", "f_pre", "incs", "f_common", "f_pcho", "f_lang", ("/Fo", "<out>", ""), "/c", "<in>"]
MS_EXE = ["ld", "f_link", "libdirs", ("/OUT:", "<out>", ""), "libs", "extlibs", "objs", "pchobj"]
MS_STATIC = ["ar", "f_link", ("/OUT:", "<out>", ""), "objs", "pchobj"]
MS_DYN = ["ld", "/DLL", "f_link", ("/OUT:", "<out>", ".dll"), ("/IMPLIB:", "<out>", ""), "objs", "pchobj"]

FAMILY = {
    "gcc": {"pch": GCC_PCH, "compile": GCC_OBJ, "exe": GCC_EXE, "static": GCC_STATIC, "dyn": GCC_DYN, "ext": {"exe": "", "static": ".a", "dyn": ".so"}, "inc": "-I", "lib": "-L", "obj": ".o", "pchext": ".gch"},
    "mingw": {"pch": GCC_PCH, "compile": GCC_OBJ, "exe": GCC_EXE, "static": GCC_STATIC, "dyn": MINGW_DYN, "ext": {"exe": ".exe", "static": ".a", "dyn": ".dll"}, "inc": "-I", "lib": "-L", "obj": ".o", "pchext": ".gch"},
    "msvc": {"pch": MS_PCH, "compile": MS_OBJ, "exe": MS_EXE, "static": MS_STATIC, "dyn": MS_DYN, "ext": {"exe": ".exe", "static": ".lib", "dyn": ".lib"}, "inc": "/I", "lib": "/LIBPATH:", "obj": ".obj", "pchext": ".pch"},
}


def defaults(family, kind, pchh, pchc):
    """flags every target of this kind starts with, after those of its toolchain"""
    d = {}
    if family in ("gcc", "mingw"):
        d["f_pcho"] = ["-include " + shlex.quote(pchh), "-H"]
        if kind == "dyn":
            d["f_common"] = ["-fpic"]
    else:
        d["f_c"] = ["/nologo"]
        d["f_cpp"] = ["/nologo", "/EHsc"]
        d["f_link"] = ["/nologo"]
        d["f_pcho"] = [shlex.quote("/Yu" + pchh), shlex.quote("/FI" + pchh), shlex.quote("/Fp" + pchc)]
    return d


def words(flags):
    return [w for f in flags for w in shlex.split(f)]


def expand(template, val):
    """val: name -> list of arguments (or '<x>' -> str). Returns list; an 'OBJS' marker tuple stands for the unordered objects."""
    out = []
    for t in template:
        if isinstance(t, tuple):
            out.append(t[0] + val[t[1]] + t[2])
        elif t.startswith("<"):
            out.append(val[t])
        elif t in val:
            out += val[t]
        else:
            out.append(t)
    return out


def match(argv, template, val, objs):
    """None if argv is the expansion of the template with the objects in any order, else a message."""
    pre = []
    want = None
    k = template.index("objs") if "objs" in template else None
    if k is None:
        want = expand(template, val)
        return None if argv == want else "expected %s, got %s" % (want, argv)
    pre = expand(template[:k], val)
    post = expand(template[k + 1:], val)
    n = len(objs)
    if argv[:len(pre)] != pre or argv[len(pre) + n:] != post or sorted(argv[len(pre):len(pre) + n]) != sorted(objs):
        return "expected %s + %s in any order + %s, got %s" % (pre, sorted(objs), post, argv)
    return None
