"""Value specs shared by checks: everything objs and zoo can build, plus awkward texts."""
from __future__ import annotations

from . import objs, zoo

AWKWARD = ["[red]x[/red]", "[/]", "[bold", "]", "[UNSAFE]", ":smile:", "a\nb", "a\r\nb", "\t", "\x1b[31mred", "\x00", "é", "\u2028", "\ud800", "", " ", "key_types", "content", "attrs",
           "keys", "a" * 50, "\\", "x\\", "\\[", "[@click=app.bell]x[/]", "│   ├──", "{}", "%s", "#", "'", '"', "\u202e", "\U0001f600", "root"]


class B(objs.Builder):
    def k_zoo(self, name, vals):
        return zoo.make(name, [self(v) for v in vals])


def build(spec):
    return B()(spec)


def awkward(s):
    st = s.st
    txt = st.one_of(st.sampled_from(AWKWARD), st.text(alphabet="[]/\\ab:\n", max_size=5))
    t = txt.map(lambda x: ["str", x])
    leaf = st.one_of(t, t, s.json_scalar, s.numarr, s.bytes_, s.slice_, s.ufunc)
    return st.recursive(leaf, lambda c: st.one_of(
        st.lists(c, max_size=3).map(lambda x: ["list", x]), st.lists(st.tuples(st.one_of(t, t, s.key), c).map(list), max_size=3).map(lambda x: ["dict", x]),
        st.lists(st.tuples(t, c).map(list), max_size=2).map(lambda x: ["odict", x])), max_leaves=6)


def zoo_node(s, leaf):
    st = s.st
    return st.builds(lambda n, v: ["zoo", n, v], st.sampled_from(sorted(zoo.MAKERS)), st.lists(leaf, min_size=3, max_size=3))


def anything():
    """Strategy of specs of objects of every kind (dump may refuse some)."""
    s = objs.S()
    st = s.st
    z0 = zoo_node(s, st.one_of(s.json_scalar, s.small_value))
    z1 = zoo_node(s, st.one_of(z0, s.json_scalar))
    z = st.one_of(z0, z1)
    return st.one_of(s.value, s.leaf, awkward(s), z, z, s.containers(st.one_of(z, s.json_scalar, s.leaf)),
                     st.builds(lambda x, y: ["list", [["def", 0, x], ["ref", 0], y]], z, s.leaf))


def supported():
    s = objs.S()
    return s.st.one_of(s.value, s.leaf, awkward(s), s.containers(s.leaf))
