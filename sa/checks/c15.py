"""C15: provenance dataflow of option values through the drivers.

Both drivers are interpreted abstractly together with the configuration
classes (descriptors included), over two input files.  Option values carry
only their origin (default, that file's config, command line); each scenario
says which origins supply which option.  At the call that processes a file the
origin of each option in the configuration object it is given is compared with
the precedence command line > config file > default."""
import ast

from ..absint import (C, Ext, U, Tup, Inst, Sig, NONE, TRUE, FALSE, ExcV, show, BM, Ref,
                      ClsV, Dct, FnV, Lst)
from ..cli import run_entry
from ..confmodel import ConfModel, ConfPlugin, UTIL, CONF
from ..model import AnchorError, Klass, FunctionInfo

FMT = "cmakelang.format.__main__"
LINT = "cmakelang.lint.__main__"
FILES = ("one.cmake", "two.cmake")
PARSER = U(("argparser",))


class P(ConfPlugin):

  def __init__(self, ctx, conf, layout, mods, opaque, files, cli, args):
    ConfPlugin.__init__(self, conf, layout, mods, opaque)
    self.ctx, self.files, self.cli, self.args = ctx, files, cli, args
    self.handlers["argparse.ArgumentParser"] = lambda st, a, k, n: [(st, PARSER)]
    self.handlers[FMT + ".get_config"] = self.get_config
    self.handlers[FMT + ".process_file"] = self.process
    self.handlers[LINT + ".process_file"] = self.process
    self.seen = []

  def domain(self, st, u):
    if u.key[0].startswith("from-"):
      return ("out", frozenset([NONE]))
    return None

  def event(self, st, *ev):
    pass

  def may_raise(self, st, f, node):
    return False

  def do_open(self, st, args, kwargs, node):
    return ConfPlugin.do_open(self, st, args, kwargs, node)[:1]

  def fork_raise(self, st, ok, exc, node, msg):
    return [(st, ok)]

  def on_method(self, st, base, name, args, kwargs, node):
    if isinstance(base, Ref) and isinstance(st.heap.get(base), Inst) \
        and st.heap[base].klass == "File":
      return [(st, U(("content", base)) if name == "read" else NONE)]
    return ConfPlugin.on_method(self, st, base, name, args, kwargs, node)

  def make(self, st, v):
    """Allocate nested dicts."""
    if isinstance(v, dict):
      return self.interp.alloc(st, ("cfgdict",), Dct({C(k): self.make(st, x) for k, x in v.items()}))
    return v

  def get_config(self, st, args, kwargs, node):
    path = self.interp.resolve(st, args[0] if args else kwargs.get("infile_path", NONE))
    cf = args[1] if len(args) > 1 else kwargs.get("configfile_paths", NONE)
    key = path.v if isinstance(path, C) else None
    if cf != C("CONFIG-FILES"):
      self.report(st, node, "config-files-ignored", "get_config is not given the --config-files of the command line")
    return [(st, self.make(st, self.files.get(key, {})))]

  def report(self, st, node, rule, msg):
    self.ctx.violation(rule, self.entry + " [" + self.scenario + "]",
                       self.interp.where(st, node), msg)

  def on_call(self, st, f, args, kwargs, node):
    if isinstance(f, U) and f.key[0] == "attr" and f.key[1] == PARSER:
      if f.key[2] in ("parse_args", "parse_known_args"):
        attrs = dict(self.args)
        attrs.update(self.cli)
        return [(st, self.interp.alloc(st, ("args",), Inst("Args", attrs)))]
      return [(st, NONE)]
    if isinstance(f, Ext) and f.name == "sys.exit":
      return [(st, Sig("raise", ExcV("SystemExit", NONE)))]
    return ConfPlugin.on_call(self, st, f, args, kwargs, node)

  def process(self, st, args, kwargs, node):
    cfg = args[0] if args else kwargs.get("config")
    got = {}
    for sect, opt in self.options:
      vals = set()
      for s, sub in self.interp.get_attr(st.copy(), cfg, sect, node):
        if isinstance(sub, Sig):
          vals.add(show(sub.val))
          continue
        for s2, v in self.interp.get_attr(s, sub, opt, node):
          vals.add(self.interp.resolve(s2, v) if not isinstance(v, Sig) else v)
      got[(sect, opt)] = vals
    self.seen.append((st.p.d["round"].v, got, self.interp.where(st, node), st.path(10)))
    st.p.d["round"] = C(st.p.d["round"].v + 1)
    return [(st, Tup((U(("out",)), TRUE)))]

  def initial(self):
    p = ConfPlugin.initial(self)
    p.d["round"] = C(0)
    return p


def scenarios():
  L = "line_width"
  S = "tab_size"
  cli, f1, f2 = U(("from-command-line",)), U(("from-config-of-file-1",)), U(("from-config-of-file-2",))
  d = {L: U(("default", L)), S: U(("default", S))}
  sec = lambda v: {"format": {L: v}}
  flat = lambda v: {L: v}
  yield ("command line and sectioned config", {FILES[0]: sec(f1), FILES[1]: sec(f2)}, {L: cli},
         [{L: cli, S: d[S]}, {L: cli, S: d[S]}])
  yield ("command line and flat config", {FILES[0]: flat(f1), FILES[1]: flat(f2)}, {L: cli},
         [{L: cli, S: d[S]}, {L: cli, S: d[S]}])
  yield ("command line only", {}, {L: cli}, [{L: cli, S: d[S]}, {L: cli, S: d[S]}])
  yield ("sectioned config per file", {FILES[0]: sec(f1), FILES[1]: sec(f2)}, {},
         [{L: f1, S: d[S]}, {L: f2, S: d[S]}])
  yield ("flat config per file", {FILES[0]: flat(f1), FILES[1]: flat(f2)}, {},
         [{L: f1, S: d[S]}, {L: f2, S: d[S]}])
  yield ("config for the first file only", {FILES[0]: sec(f1)}, {},
         [{L: f1, S: d[S]}, {L: d[L], S: d[S]}])
  yield ("config for the first file, command line sets another option",
         {FILES[0]: sec(f1)}, {S: cli}, [{L: f1, S: cli}, {L: d[L], S: cli}])
  yield ("no option given", {}, {}, [dict(d), dict(d)])
  for falsy in (C(0), C(False), C("")):
    yield ("command line value %r" % (falsy.v,), {FILES[0]: sec(f1), FILES[1]: sec(f2)}, {L: falsy},
           [{L: falsy, S: d[S]}, {L: falsy, S: d[S]}])
    yield ("config value %r" % (falsy.v,), {FILES[0]: sec(falsy), FILES[1]: sec(falsy)}, {},
           [{L: falsy, S: d[S]}, {L: falsy, S: d[S]}])


def argparse_defaults(ctx, conf):
  """add_to_argparse must leave unspecified options as None (so that they
  cannot override a config file)."""
  m = ctx.model
  for qual in (UTIL + ".FieldDescriptor.add_to_argparse",):
    info = m.function(qual)
    for n in ast.walk(info.node):
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument":
        ctx.count("option_registrations")
        kw = {k.arg: k.value for k in n.keywords}
        d = kw.get("default")
        bad = None
        if d is not None and not (isinstance(d, ast.Constant) and d.value is None) and not (
            isinstance(d, ast.Attribute) and d.attr == "SUPPRESS"):
          bad = "gives the flag a default of its own"
        a = kw.get("action")
        if isinstance(a, ast.Constant) and a.value in ("store_true", "store_false", "count") and d is None:
          bad = "uses an action with an implicit default"
        if bad:
          ctx.violation("argparse-default", qual, "%s:%d" % (info.mod.relpath, n.lineno),
                        "registering an option %s, so an unspecified option overrides the config file" % bad)


def repeated_option(ctx, conf, layout):
  """An argparse action of the program's own keeps what is given, all of it."""
  m = ctx.model
  for q, k in sorted(m.classes.items()):
    if k.mod.name not in (FMT, LINT) or not any(
        ast.unparse(b).endswith("Action") for b in k.node.bases):
      continue
    _, fn = k.lookup("__call__")
    if not isinstance(fn, FunctionInfo):
      continue
    for old in ((), (C("first"),)):
      p = P(ctx, conf, layout, [FMT], [], {}, {}, {})
      p.options, p.entry, p.scenario = [], fn.qual, "action"

      def setup(st, p=p, old=old):
        it = p.interp
        have = it.alloc(st, ("old",), Lst(old)) if old else NONE
        ns = it.alloc(st, ("ns",), Inst("Args", {"config_files": have}))
        me = it.alloc(st, ("me",), Inst(k, {"dest": C("config_files")}))
        st.p.d["ns"] = ns
        return [me, U(("the-parser",)), ns, it.alloc(st, ("vals",), Lst((C("second"), C("third"))))], {
            "option_string": C("-c")}
      it, res = run_entry(m, p, fn.qual, setup)
      for st, v in res:
        ctx.count("repeated_option_paths")
        got = st.heap[st.p.d["ns"]].attrs.get("config_files")
        o = st.heap.get(got) if isinstance(got, Ref) else got
        items = tuple(it.resolve(st, x) for x in o.items) if isinstance(o, (Lst, Tup)) else None
        want = old + (C("second"), C("third"))
        if isinstance(v, Sig) or items != want:
          ctx.violation("option-values-lost", fn.qual + (" [given before]" if old else ""), fn.where,
                        "of the values given for the option %s remain, not %s" % (
                            "none" if not items else ", ".join(show(x) for x in items),
                            ", ".join(show(x) for x in want)))


def run(ctx):
  m = ctx.model
  conf = ConfModel(m)
  ctx.rule("at every call of process_file each option carries the value of the highest-ranking "
           "origin that supplies it (command line > config file > default), for each of two files")
  ctx.rule("options are registered with argparse without a default of their own")
  root = conf.root()
  fmtk = dict((n, k) for n, k, _ in conf.sections()).get("format")
  if fmtk is None:
    raise AnchorError("Configuration has no 'format' section")
  names = {f.name for f in conf.fields[fmtk.qual]}
  if not {"line_width", "tab_size", "line_ending"} <= names:
    raise AnchorError("format section lost line_width/tab_size/line_ending")
  layout = {root.qual: [("sub", "format", fmtk)],
            fmtk.qual: [("field", "line_width", U(("default", "line_width"))),
                        ("field", "tab_size", U(("default", "tab_size"))),
                        ("field", "line_ending", C("unix")),
                        ("field", "disable", FALSE),
                        ("field", "require_valid_layout", FALSE)]}
  repeated_option(ctx, conf, layout)
  base = {"dump_config": NONE, "dump": NONE, "in_place": FALSE, "check": FALSE,
          "outfile_path": NONE, "infilepaths": Tup(tuple(C(f) for f in FILES)),
          "config_files": C("CONFIG-FILES"), "log_level": C("info"), "with_help": TRUE,
          "with_defaults": TRUE, "tab_size": NONE, "line_width": NONE}
  for prog, entry in ((FMT, FMT + ".inner_main"), (LINT, LINT + ".inner_main")):
    args = dict(base)
    if prog == LINT:
      for k in ("in_place", "check", "dump"):
        args.pop(k)
      args["suppress_decorations"] = TRUE
    for name, files, cli, want in scenarios():
      p = P(ctx, conf, layout, [FMT, LINT], [FMT + ".dump_config", FMT + ".setup_argparser",
                                            LINT + ".setup_argparse"], files, cli, args)
      p.options = [("format", "line_width"), ("format", "tab_size")]
      p.entry, p.scenario = entry, name

      def setup(st, p=p):
        p.make_descriptors(st)
        return [], {}
      it, res = run_entry(m, p, entry, setup)
      ctx.count("scenarios")
      ctx.count("final_paths", len(res))
      rounds = set()
      for rnd, got, where, path in p.seen:
        if rnd >= len(want):
          continue
        rounds.add(rnd)
        for (sect, opt), vals in sorted(got.items()):
          ctx.count("option_reads_judged")
          exp = want[rnd][opt]
          if vals != {exp}:
            ctx.violation(
                "precedence", "%s [%s; file %d; %s]" % (entry, name, rnd + 1, opt), where,
                "%s should be %s but is %s" % (opt, show(exp), ", ".join(sorted(
                    show(v) if not isinstance(v, str) else v for v in vals))))
      if name == "command line and sectioned config":
        ctx.sample("%s: %s: rounds %s" % (entry, name, sorted(rounds)))
      if rounds != {0, 1}:
        ends = sorted({show(v.val) if isinstance(v, Sig) else show(v) for _, v in res})
        ctx.violation("not-every-file", "%s [%s]" % (entry, name), m.function(entry).where,
                      "not every input file is processed (rounds %s, ends %s)" % (sorted(rounds), ends[:4]))
  argparse_defaults(ctx, conf)
  ctx.expect("scenarios", 20)
  ctx.expect("option_reads_judged", 60)
  ctx.expect("option_registrations", 3)
