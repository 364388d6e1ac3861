"""V11: structure of the object root and of version directories."""
from ..world import *

EXPLAIN = ("Abstract interpretation of the object validator on abstract stored objects with one structural defect "
           "(declaration, inventory, unexpected entries of arbitrary name, version directories, special files). "
           "Every path must report an error and return False; permitted extras must leave the object valid.")
ASSUME = ["file systems behave like a local directory tree", "digest functions are treated as collision free"]
FLOOR = 60


def obligations(p):
    obs = []
    for spec in ("1.0", "1.1"):
        other = "1.1" if spec == "1.0" else "1.0"
        decl = "0=ocfl_object_" + spec
        for n in (1, 3):
            kw = dict(n=n, spec=spec)
            t = "%s/%d" % (spec, n)
            obs.append(valid("intact/" + t, obj(**kw), "an intact object is accepted"))
            obs.append(invalid("no declaration/" + t, obj(tree=remove(decl), **kw), "the declaration is required"))
            obs.append(invalid("no inventory/" + t, obj(tree=remove("inventory.json"), **kw), "the inventory is required"))
            for nm, txt in (("empty", ()), ("other version", ("ocfl_object_%s\n" % other,))):
                obs.append(invalid("declaration content %s/%s" % (nm, t), obj(tree=put(decl, F(*txt)), **kw), "the declaration's content must agree with its name"))
            # whatever can be taken for the declared value once white space is trimmed and other characters replaced is left out
            near = lang(r"\s*ocfl[\W_]object[\W_]%s(\s.*)?\Z" % spec.replace(".", r"\."))
            obs.append(invalid("declaration content any/" + t, obj(tree=put(decl, lambda o, near=near: F(o.st.atom(D.inter(D.without("\n"), D.compl(near))), K("\n"))), **kw),
                               "the declaration's content must agree with its name"))
            obs.append(invalid("two declarations/" + t, obj(tree=put("0=ocfl_object_" + other, "ocfl_object_%s\n" % other), **kw), "only one declaration is allowed"))
            obs.append(invalid("unknown declaration/" + t, obj(tree=both(remove(decl), put("0=ocfl_object_9.9", "ocfl_object_9.9\n")), **kw), "the declared version must be known"))
            obs.append(invalid("storage root declaration/" + t, obj(tree=both(remove(decl), put("0=ocfl_" + spec, "ocfl_%s\n" % spec)), **kw), "the declaration must be of an object"))
            obs.append(invalid("extra declaration/" + t, obj(tree=put("0=something", "something\n"), **kw), "only one declaration is allowed"))
            obs.append(invalid("extra file/" + t, obj(tree=put_any("", F(chunk("x"))), **kw), "no other files in the object root"))
            LN = D.inter(NAME, D.compl(D.words(["logs", "extensions"])))
            obs.append(invalid("extra directory/" + t, obj(tree=put_any("", {"f": F(chunk("x"))}, lang_=LN), **kw), "no other directories in the object root"))
            obs.append(invalid("extra empty directory/" + t, obj(tree=put_any("", {}, lang_=LN), **kw), "no other directories in the object root"))
            obs.append(invalid("special entry/" + t, obj(tree=put_any("", "other"), **kw), "only files and directories in the object root"))
            for d in ("v%d" % (n + 1), "v0", "v01", "v99"):
                obs.append(invalid("extra version directory %s/%s" % (d, t), obj(tree=put(d, {"content": {"f": F(chunk("x"))}}), **kw), "every version directory must be a version of the inventory"))
            for k in range(1, n + 1):
                obs.append(invalid("version directory v%d missing/%s" % (k, t), obj(tree=remove("v%d" % k), **kw), "every version needs its directory"))
                obs.append(invalid("version directory v%d is a file/%s" % (k, t), obj(tree=put("v%d" % k, F(chunk("x"))), **kw), "every version needs its directory"))
                obs.append(invalid("extra file in v%d/%s" % (k, t), obj(tree=put_any("v%d" % k, F(chunk("x"))), **kw), "no other files in a version directory"))
            obs.append(valid("logs/" + t, obj(tree=put_any("logs", F(chunk("x"))), **kw), "a logs directory may hold anything"))
            obs.append(valid("extensions/" + t, obj(tree=put("extensions/0001-digest-algorithms/x", F(chunk("x"))), **kw), "extension directories are allowed"))
            obs.append(valid("any extension/" + t, obj(tree=put_any("extensions", {"x": F(chunk("x"))}), **kw), "extension directories are allowed"))
            obs.append(invalid("file in extensions/" + t, obj(tree=put_any("extensions", F(chunk("x"))), **kw), "only directories in the extensions directory"))
            obs.append(invalid("file beside an extension/" + t, obj(tree=both(put("extensions/0005-mutable-head", {}), put_any("extensions", F(chunk("x")))), **kw),
                               "only directories in the extensions directory"))
    for nm, f in (("empty", F()), ("not JSON", F(Q("badjson"))), ("cut off", F('{"id": "x"'))):
        for n in (1, 2):
            obs.append(invalid("inventory %s/%d" % (nm, n), obj(n=n, tree=put("inventory.json", f)), "the inventory must be readable"))

    # spec version of declaration and of inventory
    def vtype(v):
        def g(o):
            o.docs[-1]["type"] = "https://ocfl.io/%s/spec/#inventory" % v
        return g
    for n in (1, 2):
        obs.append(invalid("declaration 1.0, inventory 1.1/%d" % n, obj(n=n, spec="1.0", docs=vtype("1.1")), "declaration and root inventory must agree on the version"))
        obs.append(invalid("declaration 1.1, inventory 1.0/%d" % n, obj(n=n, spec="1.1", prior_spec="1.0", docs=vtype("1.0")), "declaration and root inventory must agree on the version"))
    # contents of the head's and other inventories in the file tree
    obs.append(invalid("empty directory tree", lambda st: {}, "an object needs a declaration and an inventory"))
    for k in (1, 2, 3):
        obs.append(valid("no version inventory v%d" % k, obj(n=3, tree=remove("v%d/inventory.json" % k, "v%d/inventory.json.sha512" % k)), "inventories of versions are optional"))
        obs.append(invalid("version inventory v%d gone, sidecar left" % k, obj(n=3, tree=remove("v%d/inventory.json" % k)), "no other files in a version directory"))
    obs.append(valid("no version inventories", obj(n=3, tree=both(*[remove("v%d/inventory.json" % k, "v%d/inventory.json.sha512" % k) for k in (1, 2, 3)])), "inventories of versions are optional"))
    obs.append(valid("other directory in a version", obj(n=2, tree=put_any("v1", {"f": F(chunk("x"))})), "other directories in a version directory are only warned about"))
    obs.append(valid("padded versions", obj(n=3, width=4), "zero-padded versions are accepted"))
    obs.append(invalid("padded versions, unpadded directory", obj(n=2, width=4, tree=put("v1", {})), "every version directory must be a version of the inventory"))
    return obs
