"""C++ canonical type strings, as printed by clang."""
import functools

INT_TYPES = {"int", "long", "long long", "unsigned int", "unsigned long", "unsigned long long", "short",
             "unsigned short", "char", "signed char", "unsigned char"}
UNSIGNED = {t for t in INT_TYPES if t.startswith("unsigned")}
REAL_TYPES = {"double", "float", "long double"}


@functools.lru_cache(maxsize=None)
def cvref(t):
    """strip references and top-level cv"""
    t = t.strip()
    while True:
        if t.endswith("&&"):
            t = t[:-2].strip()
        elif t.endswith("&"):
            t = t[:-1].strip()
        elif t.endswith("*const"):
            t = t[:-5].strip()
        elif t.startswith("const "):
            # only top level if it is not a pointer
            if t.endswith("*"):
                return t
            t = t[6:].strip()
        elif t.startswith("volatile "):
            t = t[9:].strip()
        else:
            return t


def is_ref(t):
    return t.rstrip().endswith("&")


def is_ptr(t):
    return cvref(t).endswith("*")


def pointee(t):
    return cvref(t)[:-1].strip()


def strip_const(t):
    t = t.strip()
    while t.startswith("const "):
        t = t[6:]
    return t


@functools.lru_cache(maxsize=None)
def tmpl(t):
    """'a::b<c, d<e>>' -> ('a::b', ('c','d<e>'))"""
    t = strip_const(cvref(t))
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return t, ()
    name, inner = t[:i], t[i + 1:-1]
    args, d, cur = [], 0, ""
    for ch in inner:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            args.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        args.append(cur.strip())
    return name, tuple(args)


SMART = ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "std::reference_wrapper")


def is_smart(t):
    return tmpl(t)[0] in SMART


def is_eigen(t):
    return strip_const(cvref(t)).startswith("Eigen::")
