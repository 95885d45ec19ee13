"""C16: inspecting and drawing never changes a simulation."""
import contextlib
import io
import random

import numpy as np

from .. import image, pipe
from ..core import Violation, digest
from ..image import Image
from ..inject import Injected, LineTrace
from ..runner import Check
from ..seams import Solo

LABELS = [None, "index", "bit_val", "hom_val_p", "hom_val_q", "p_phase_cond", "weight", "state", "nonsense"]


class BrokenOut(io.StringIO):
    """A standard output whose n-th write fails."""

    def __init__(self, n):
        super().__init__()
        self.n = n
        self.fired = False

    def write(self, s):
        self.n -= 1
        if self.n <= 0:
            self.fired = True
            raise OSError(28, "injected: no space left on device")
        return super().write(s)


def global_state():
    return random.getstate(), repr(np.random.get_state())


def edges(graph):
    return {str(sorted(e[:2])): {k: pipe.plain(v) for k, v in sorted(e[2].items())} for e in graph.edges.data()}


# ------------------------------------------------------------------------ inspections
def i_draw_code(c, r):
    kw = {"label": r.choice(LABELS), "legend": r.random() < 0.5, "title": r.choice([True, "title", None])}
    if r.random() < 0.3:
        kw["color_nodes"] = r.choice(["red", True, ("state", {"GKP": "gold", "p": "blue"}), ("state", 3)])
    if r.random() < 0.3:
        kw["color_edges"] = r.choice(["red", True, ("weight", {1: "b", -1: "r"}), 3])
    if r.random() < 0.3:
        kw["show_axes"] = False
    if r.random() < 0.2:
        kw["dimensions"] = ([0, 2], [0, 0], [1, r.choice([1, 3])])
    return c.code.draw(**kw)


def i_draw_plotly(c, r):
    kw = {}
    if r.random() < 0.6:
        kw = {"label": r.choice(["all", "index", "bit_val", "coordinates", ["state", "bit_val", "index"], ("weight",),
                                 ["hom_val_p"], None, 3]),
              "title": r.choice([None, True, "title"]), "legend": r.random() < 0.5, "show_axes": r.random() < 0.5}
    return c.code.draw(backend=r.choice(["plotly", "plotly", "plotly", "unknown"]), **kw)


def i_draw_noise(c, r):
    return c.noise.draw(label=r.choice(LABELS), title=True)


def i_draw_scz(c, r):
    return c.noise.draw_SCZ(show=r.random() < 0.5)


def i_scz(c, r):
    return c.noise.SCZ(sparse=r.random() < 0.5)


def i_draw_adj(c, r):
    return c.code.graph.draw_adj(show=r.random() < 0.5)


def i_draw_stab(c, r):
    ec = c.ec(r)
    g = getattr(c.code, ec + "_stab_graph")
    labels = {n: i for i, n in enumerate(g.nodes())} if r.random() < 0.5 else None
    kw = dict(label_edges=r.random() < 0.5, node_labels=labels, title=r.choice(["", "stabilizers"]))
    return c.code.draw_stabilizer_graph(ec, **kw) if r.random() < 0.7 else g.draw(**kw)


def i_to_nx(c, r):
    g = getattr(c.code, c.ec(r) + "_stab_graph").to_nx()
    return list(g.edges()), list(g.nodes())


def i_syndrome(c, r):
    opts = {"show_nodes": r.random() < 0.4, "label": r.choice([None, "bit_val"]), "label_boundary": r.random() < 0.5,
            "legend": r.random() < 0.5, "show_title": r.random() < 0.5}
    g = getattr(c.code, c.ec(r) + "_stab_graph")
    index = {n: i for i, n in enumerate(g.nodes())} if r.random() < 0.5 else None
    return c.viz.syndrome_plot(c.code, c.ec(r), index_dict=index, drawing_opts=opts)


def drawing_opts(r):
    return {k: r.random() < 0.5 for k in ("show_nodes", "label_stabilizers", "label_boundary", "label_edges",
                                          "show_title", "show_recovery", "legend")}


def i_draw_decoding(c, r):
    ec = c.ec(r)
    if r.random() < 0.3:
        objs = {"recovery_set": c.img.get("flamingpy.decoders.unionfind.algos").uf_decoder(c.code, ec)}
    else:
        g = c.match(ec, "networkx")
        objs = {"matching_graph": g, "matching": g.min_weight_perfect_matching()}
    return c.viz.draw_decoding(c.code, ec, objs, drawing_opts(r) if r.random() < 0.8 else None)


def i_matching(c, r):
    g = c.match(c.ec(r), r.choice(["networkx", "rustworkx", "lemon"]))
    m = g.min_weight_perfect_matching()
    return [g.edge_path(e) for e in m if r.random() < 0.5 and not all(n in g.virtual_points for n in e)], g.total_weight_of(m)


def i_matching_draw(c, r):
    return c.match(c.ec(r), r.choice(["networkx", "rustworkx"])).draw(label_edges=r.random() < 0.5)


def i_held(c, r):
    g = c.held
    if g is None:
        return None
    k = r.randrange(4)
    if k == 0:
        edges = g.graph.edges if callable(getattr(g.graph, "edge_list", None)) is False else g.graph.edge_list()
        return len(list(edges)), list(g.virtual_points)
    if k == 1 and hasattr(g, "to_nx"):
        other = g.to_nx()
        return other.min_weight_perfect_matching()
    return g.draw(label_edges=r.random() < 0.5, title=r.choice(["", "matching"]))


def i_matching_nx(c, r):
    return c.match(c.ec(r), "rustworkx").to_nx()


def i_decode_only(c, r):
    ec = c.ec(r)
    if r.random() < 0.5:
        return c.img.get("flamingpy.decoders.unionfind.algos").uf_decoder(c.code, ec)
    return c.img.get("flamingpy.decoders.mwpm.algos").mwpm_decoder(c.code, ec, backend=r.choice(["networkx", "rustworkx"]))


def i_check(c, r):
    return c.img.get("flamingpy.decoders.decoder").check_correction(c.code, sanity_check=r.random() < 0.8)


def i_no_recovery(c, r):
    return c.img.get("flamingpy.decoders.decoder").recovery([], c.code, c.ec(r), sanity_check=True)


def i_stabilizers(c, r):
    return [(repr(s), s.parity, s.coords(), s.xlims(), s.ylims(), s.zlims(), s.midpoint())
            for s in getattr(c.code, c.ec(r) + "_stabilizers")]


def i_stab_graph(c, r):
    g = getattr(c.code, c.ec(r) + "_stab_graph")
    out = [list(g.odd_parity_stabilizers()), list(g.real_nodes()), list(g.real_edges()), g.bound_points(),
           g.has_bound_points()]
    some = [n for n in g.nodes() if n not in ("low", "high")]
    if some:
        n = r.choice(some)
        out += [list(g.neighbors(n)), list(g.out_edges(n))]
        if r.random() < 0.5:
            out.append(g.shortest_paths_without_high_low(n))
    if g.has_bound_points():
        out += [g.shortest_paths_from_high(), g.shortest_paths_from_low()]
    return out


def i_index(c, r):
    g = c.code.graph if r.random() < 0.5 or not hasattr(c.noise, "egraph") else c.noise.egraph
    return g.index_generator(), g.to_points


def i_adj(c, r):
    g = c.code.graph if r.random() < 0.5 or not hasattr(c.noise, "egraph") else c.noise.egraph
    return g.adj_generator(sparse=r.random() < 0.5)


def i_slice(c, r):
    return c.code.graph.slice_coords(r.choice("xyzw"), r.randint(0, 4))


def i_macronize(c, r):
    return c.code.graph.macronize(pad_boundary=r.random() < 0.5, disp=r.choice([0.1, 0.05, 0.6]))


def i_getters(c, r):
    n = c.noise
    inds = r.choice([None, [0, 1], [0, 10**6]])
    return n.p_inds, n.gkp_inds, n.bit_values(inds), n.hom_outcomes(inds, quad=r.choice("pqx"))


def i_gkp(c, r):
    gkp = c.img.get("flamingpy.cv.gkp")
    xs = [c.code.graph.nodes[v].get("hom_val_p") for v in c.code.graph.nodes]
    xs = np.array([x for x in xs if x is not None] or [0.1, 1.2, 2.2])
    a = np.sqrt(np.pi)
    n, f = gkp.integer_fractional(xs, a)
    bits = gkp.GKP_binner(xs)
    err = gkp.Z_err_cond(np.full(len(xs), 0.1), xs, use_hom_val=r.random() < 0.5)
    show = r.random() < 0.5
    k = r.randrange(5)
    xs = np.sort(xs)
    if k == 0:
        c.viz.plot_integer_part(xs, n, a, show)
    elif k == 1:
        c.viz.plot_fractional_part(xs, f, a, show)
    elif k == 2:
        c.viz.plot_GKP_bins(xs, bits, a, show)
    elif k == 3:
        c.viz.plot_Z_err_cond(xs, err, a, True, show)
    return gkp.Z_err(np.array([0.1, 0.2]))


def i_repr(c, r):
    return repr(c.code), str(c.code.graph), repr(c.noise)


def i_copy(c, r):
    import copy

    g = copy.deepcopy(c.code.graph)
    for v in g.nodes:
        g.nodes[v].update(bit_val=1, state="p", weight=0)
    g.remove_qubit(next(iter(g.nodes)))
    return g


INSPECT = {k[2:]: v for k, v in list(globals().items()) if k.startswith("i_")}
HEAVY = {"draw_code", "draw_noise", "draw_plotly", "draw_stab", "syndrome", "draw_decoding", "matching_draw", "held", "draw_adj",
         "draw_scz", "gkp"}


class Ctx:
    def __init__(self, img, code):
        self.img = img
        self.code = code
        self.noise = None
        self.held = None  # the matching graph of a decoding that is done step by step

    @property
    def viz(self):
        return self.img.get("flamingpy.utils.viz")

    def ec(self, r):
        return r.choice(list(self.code.ec) * 6 + ["nonsense"])

    def match(self, ec, backend):
        return self.img.get("flamingpy.decoders.mwpm.algos").build_match_graph(self.code, ec, backend)


class C16(Check):
    id = "C16"
    needs_lemon = True
    needs_plot = True
    runs = {"quick": 700, "thorough": 20000}
    budget = {"quick": 240, "thorough": 2700}
    rule = ("digest of the pipeline and the sequence of inspections with their outcomes; nontrivial if an inspection "
            "succeeded")
    real = ["flamingpy.utils.viz with matplotlib (Agg) and plotly", "flamingpy.codes", "flamingpy.noise",
            "flamingpy.decoders", "lemonpy (compiled from the current sources)"]
    stubs = ["identity hashes", "standard output"]
    assumptions = ["results are node labels, outcomes, bits, probabilities and weights, the recovery, the verdict and "
                   "the state of the generator"]
    expected_probes = ["ok_" + k for k in INSPECT] + ["failed_" + k for k in sorted(HEAVY)] + [
        "decoded_with_drawing", "decoded_with_sanity_check", "drawing_failed_in_decoding"]

    def generate(self, rng, tier, idx):
        p = pipe.gen_pipeline(rng, tier, cap=rng.choice([60, 60, 110]))
        stages = []
        trials = rng.choice([1, 2, 2, 3])
        heavy = 4
        for s in range(2 + 3 * trials):
            ops = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                k = rng.choice(list(INSPECT)) if s < 2 or s % 3 or rng.random() < 0.6 else "held"
                if k in HEAVY:
                    heavy -= 1
                    if heavy < 0:
                        continue
                fault = rng.choice(["none", "none", "none", "line", "out"])
                ops.append([k, rng.getrandbits(30), fault, rng.choice([1, 2, 5, 20, 60, 200, 600])])
            stages.append(ops)
        dec = [{"draw": rng.random() < 0.25, "sanity": rng.random() < 0.4, "opts": rng.getrandbits(20),
                "fail": rng.choice([0, 0, 1, 10, 50, 200])} for _ in range(trials)]
        return {"p": p, "seed": rng.getrandbits(40), "trials": trials, "stages": stages, "dec": dec,
                "hash": rng.getrandbits(30), "split": rng.random() < 0.4}

    def execute(self, sc, run):
        plain = self.go(sc, None)
        inspected = self.go(sc, run)
        for k, (a, b) in enumerate(zip(plain, inspected)):
            d = pipe.first_difference(a, b)
            if d:
                raise Violation("result-changed", f"after step {k} of the pipeline, without / with inspections: {d}")
        run.nontrivial = any(k.startswith("ok_") for k in run.probes)
        run.signature = run.log.digest()
        run.sample = {"pipeline": sc["p"], "inspections": [[o[0] for o in s] for s in sc["stages"]]}

    def go(self, sc, run):
        """The pipeline; with inspections if there is a run to report them to."""
        p = sc["p"]
        img = Image(hash_seed=sc["hash"])
        out = []
        with Solo(image=img):
            dec = img.get("flamingpy.decoders.decoder")
            ctx = Ctx(img, pipe.make_code(img, p["code"]))
            stage = iter(sc["stages"])
            gen = np.random.default_rng(sc["seed"])
            code = ctx.code

            def look():
                if run is not None:
                    for op in next(stage):
                        self.inspect(ctx, op, run)

            def take(**kw):
                if getattr(ctx.noise, "egraph", code.graph) is not code.graph:
                    kw["macro"] = pipe.snapshot(ctx.noise.egraph)
                out.append({"nodes": pipe.snapshot(code.graph), "edges": edges(code.graph), "generator": repr(gen.bit_generator.state), **kw})

            look()
            ctx.noise = pipe.make_noise(img, code, p["noise"])
            look()
            take()
            for k in range(sc["trials"]):
                ctx.noise.apply_noise(gen)
                take()
                look()
                if sc["split"]:
                    ver = self.by_steps(ctx, p["dec"], look)
                else:
                    ver = self.at_once(ctx, p["dec"], sc["dec"][k], run)
                    look()
                take(verdict=ver, weights=pipe.stab_weights(code))
                look()
                take()
            del dec
        if run is not None:
            import matplotlib.pyplot as plt

            plt.close("all")
        return out

    def by_steps(self, ctx, d, look):
        """Decoding by hand; the inspections come between building the matching graph and matching."""
        dec = ctx.img.get("flamingpy.decoders.decoder")
        dec.assign_weights(ctx.code, d["decoder"], **d["w"])
        seen = []
        if d["decoder"] == "MWPM":
            ctx.held = ctx.match(ctx.code.ec[0], d["d"].get("backend", "rustworkx"))
        look()
        if ctx.held is not None:
            g, ctx.held = ctx.held, None
            match = [tuple(e) for e in g.min_weight_perfect_matching()]
            seen = sorted(sorted(map(str, e)) for e in match), pipe.plain(g.total_weight_of(match))
        for ec in ctx.code.ec:
            if d["decoder"] == "UF":
                rec = ctx.img.get("flamingpy.decoders.unionfind.algos").uf_decoder(ctx.code, ec, **d["d"])
            else:
                rec = ctx.img.get("flamingpy.decoders.mwpm.algos").mwpm_decoder(ctx.code, ec, **d["d"])
            dec.recovery(rec, ctx.code, ec)
        return bool(np.all(dec.check_correction(ctx.code))), seen

    def at_once(self, ctx, d, how, run):
        correct = ctx.img.get("flamingpy.decoders.decoder").correct
        kw = dict(decoder=d["decoder"], weight_options=dict(d["w"]) or None, decoder_opts=dict(d["d"]) or None)
        if run is not None and (how["draw"] or how["sanity"]):
            r = random.Random(how["opts"])
            extra = {"sanity_check": how["sanity"]}
            if how["draw"]:
                extra.update(draw=True, drawing_opts=drawing_opts(r))
            trace = LineTrace(how["fail"] or None)
            trace.pre = str(image.ROOT / "flamingpy" / "utils" / "viz.py")
            before = global_state()
            try:
                with contextlib.redirect_stdout(io.StringIO()), trace:
                    ver = correct(ctx.code, **kw, **extra)
                if how["draw"]:
                    run.probe("decoded_with_drawing")
                if how["sanity"]:
                    run.probe("decoded_with_sanity_check")
                return bool(ver)
            except Exception as e:
                if not how["draw"]:
                    raise
                if not isinstance(e, Injected):
                    raise Violation("drawing-fails-decoding", f"{type(e).__name__}: {e} with {extra}") from e
                run.log.add("drawing failed", type(e).__name__)
                run.probe("drawing_failed_in_decoding")
                if isinstance(e, Injected):
                    run.fault("drawing_aborted")
            finally:
                if global_state() != before:
                    raise Violation("global-generator-used", f"decoding with {extra} changed the state of a global generator")
        return bool(correct(ctx.code, **kw))

    def inspect(self, ctx, op, run):
        name, seed, fault, n = op
        r = random.Random(seed)
        out = BrokenOut(1 + n % 7) if fault == "out" else io.StringIO()
        trace = LineTrace(n if fault == "line" else None)
        trace.pre = str(image.ROOT / "flamingpy" / "utils" / "viz.py")
        before = global_state()
        try:
            with contextlib.redirect_stdout(out), trace:
                INSPECT[name](ctx, r)
            res = "ok"
            run.probe("ok_" + name)
        except Exception as e:
            res = type(e).__name__
            run.probe("failed_" + name)
            if isinstance(e, Injected):
                run.fault("drawing_aborted")
            elif getattr(out, "fired", False):
                run.fault("output_failed")
            else:
                run.fault("inspection_rejected")
        if global_state() != before:
            raise Violation("global-generator-used", f"{name} ({res}) changed the state of a global generator")
        import matplotlib.pyplot as plt

        plt.close("all")
        run.log.add(name, res)

    def shrink(self, sc):
        st = sc["stages"]
        for i in range(len(st)):
            if st[i]:
                yield {**sc, "stages": st[:i] + [[]] + st[i + 1:]}
                for j in range(len(st[i])):
                    yield {**sc, "stages": st[:i] + [st[i][:j] + st[i][j + 1:]] + st[i + 1:]}
        for k, d in enumerate(sc["dec"]):
            if d["draw"] or d["sanity"]:
                yield {**sc, "dec": sc["dec"][:k] + [{**d, "draw": False, "sanity": False}] + sc["dec"][k + 1:]}
        if sc["trials"] > 1:
            yield {**sc, "trials": sc["trials"] - 1}
        for q in pipe.shrink_pipeline(sc["p"]):
            yield {**sc, "p": q}


CHECK = C16()
