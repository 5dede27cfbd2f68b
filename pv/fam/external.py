"""C10: models whose weights are in external files, with honest and hostile references."""
import os
import numpy as np
from ..gen import *
from .. import pb
from .control import vi
from .layers import ri

PLAIN = ["w.bin", "./w.bin", "sub/w.bin", "sub//w.bin", "./sub/./w.bin", "sub/deep/x.data", "..w.bin", "...", ".hidden", "a..b", "w.bin ", " w", "weights é.bin", "~", "%2e%2e", "..\\canary.bin", "sub\\w.bin", "C:", "file:", "sub/..w", "$HOME", "*"]
LINKS = ["link_in", "dirlink_in/w.bin", "sub/up/w.bin"]
ESCAPES = ["link_out", "dirlink/canary.bin", "sub/link_out", "dirlink/../canary.bin", "chain", "abslink", "siblink", "sibdir/w.bin"]


def layout(root, rng):
    """A scratch tree: the model directory with data files and links, canaries around it."""
    md = os.path.join(root, "top", "model")
    os.makedirs(os.path.join(md, "sub", "deep"))
    os.makedirs(os.path.join(root, "top", "out"))
    os.makedirs(os.path.join(root, "top", "model2"))
    data = {}
    for n in PLAIN:
        p = os.path.normpath(os.path.join(md, n))
        if p not in data:
            data[p] = rng.bytes(int(rng.integers(300, 700)))
            with open(p, "wb") as f:
                f.write(data[p])
    os.makedirs(os.path.join(md, "dir.bin"))
    for p in ("top/canary.bin", "top/out/canary.bin", "canary.bin", "top/model2/w.bin"):
        with open(os.path.join(root, p), "wb") as f:
            f.write(rng.bytes(1024))
    for n, t in (("link_in", "w.bin"), ("dirlink_in", "sub"), ("sub/up", ".."), ("link_out", "../canary.bin"), ("dirlink", "../out"), ("sub/link_out", "../../canary.bin"), ("chain", "link_out"), ("abslink", os.path.join(root, "canary.bin")), ("siblink", "../model2/w.bin"), ("sibdir", "../model2")):
        os.symlink(t, os.path.join(md, n))
    os.symlink("model", os.path.join(root, "top", "symdir"))
    return md


def location(rng, md):
    r = rng.random()
    if r < 0.3:
        return pick(rng, PLAIN)
    if r < 0.36:
        return pick(rng, LINKS)
    if r < 0.48:
        return pick(rng, ESCAPES)
    if r < 0.8:
        top = os.path.dirname(md)
        root = os.path.dirname(top)
        return pick(rng, ["", ".", "./", "/", "//", "..", "../", "../canary.bin", "../out/canary.bin", "../../canary.bin", "../model/w.bin", "sub/../w.bin", "sub/../../canary.bin", "./../canary.bin", "sub/../../model/w.bin", "a/../../canary.bin", "../model2/w.bin",
                          top + "/canary.bin", "/" + top + "/canary.bin", "//" + top + "/canary.bin", md + "/w.bin", md + "/../canary.bin", root + "/canary.bin", "/etc/hostname", "/etc/passwd", "sub/", "w.bin/", "w.bin/.", "dir.bin", "sub", "nosuch", "nosuch/w.bin", "w.bin\0", "\0", "w.bin\0../canary.bin",
                          "w" * 300, "sub/" * 3000 + "w.bin", "./" * 1500 + "w.bin", "../" * 40 + "etc/hostname", "file:///etc/hostname", "/proc/self/environ", "/dev/zero", "../symdir/w.bin", ".../w.bin", "\\\\?\\", "..;/canary.bin",
                          "/nosuch.bin", "/nosuch/w.bin", "/w.bin", "//w.bin", "/./w.bin", "/..", "../nosuch.bin", "sub/../../nosuch.bin", "sub/../nosuch.bin", "nosuch/../w.bin", "../model/nosuch.bin", "a/b/../../../nosuch.bin", "sub/..", "./.."])
    parts = [pick(rng, ["w.bin", "sub", "..", "..", ".", "", "canary.bin", "out", "model", "link_out", "dirlink", "dirlink_in", "up", "deep", "x.data", "...", "..w.bin", "top"]) for _ in range(ri(rng, 1, 5))]
    return ("/" if chance(rng, 0.1) else "") + "/".join(parts)


def legal(loc, md):
    """The file that the location denotes, if it is allowed, else None."""
    if not loc or "\0" in loc or loc.startswith("/") or ".." in loc.split("/"):
        return None
    p = md + "/" + loc
    try:
        if not os.path.isfile(p):
            return None
    except (ValueError, OSError):
        return None
    r = os.path.realpath(p)
    return r if r.startswith(os.path.realpath(md) + "/") else None


def model(rng, kv, shape, place, also=None):
    """A model with one external tensor."""
    m = M(rng)
    t = pb.Tensor("w", np.zeros(shape, f32), enc="external", ext=kv)
    if also == "raw":  # contradictory: inline data as well
        t.encode = lambda t=t: pb.Tensor("w", np.zeros(shape, f32), enc="external", ext=kv).encode() + pb.fbytes(9, b"\x00" * 4 * int(np.prod(shape)))
    x = "x"
    if place in ("init", "unused"):
        nodes = [pb.Node("Add" if place == "init" else "Relu", [x, "w"] if place == "init" else [x], ["y"])]
        g = pb.Graph(nodes, [], [], [t])
    elif place == "node":
        t.name = ""
        g = pb.Graph([pb.Node("Constant", [], ["w"], value=t), pb.Node("Add", [x, "w"], ["y"])], [], [], [])
    else:
        if place == "subnode":
            t.name = ""
            then = pb.Graph([pb.Node("Constant", [], ["w"], value=t), pb.Node("Add", [x, "w"], ["a"])], [], [vi("a", f32, shape)], [], name="then")
        else:
            then = pb.Graph([pb.Node("Add", [x, "w"], ["a"])], [], [vi("a", f32, shape)], [t], name="then")
        els = pb.Graph([pb.Node("Neg", [x], ["b"])], [], [vi("b", f32, shape)], [], name="else")
        g = pb.Graph([pb.Node("If", ["c"], ["y"], then_branch=then, else_branch=els)], [], [], [])
        g.inputs = [vi("c", b1)]
    g.inputs = list(g.inputs) + [vi(x, f32, shape)]
    g.outputs = [vi("y", f32, shape)]
    return pb.Model(g, opset=17).encode()
