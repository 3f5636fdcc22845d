"""Stand-ins for the parts of docc that cannot be built here: the SDFG bindings, the AST parser's code generation, the C++ compiler and the
dynamic loader.  A compiled library is a file naming a recorded program; running it interprets the recorded Python body on the memory
that the real code passed, with the types, shapes and strides that were fixed when it was compiled."""
import ast, ctypes, json, os, sys, types
import numpy as np
import core

PRIMS = ["Void", "Bool", "Int8", "Int16", "Int32", "Int64", "Int128", "UInt8", "UInt16", "UInt32", "UInt64", "UInt128", "Half", "BFloat", "Float",
         "Double", "X86_FP80", "FP128", "PPC_FP128"]
NP = {"Bool": np.bool_, "Int8": np.int8, "Int16": np.int16, "Int32": np.int32, "Int64": np.int64, "UInt8": np.uint8, "UInt16": np.uint16,
      "UInt32": np.uint32, "UInt64": np.uint64, "Half": np.float16, "Float": np.float32, "Double": np.float64}
CT = {"Bool": ctypes.c_bool, "Int8": ctypes.c_int8, "Int16": ctypes.c_int16, "Int32": ctypes.c_int32, "Int64": ctypes.c_int64,
      "UInt8": ctypes.c_uint8, "UInt16": ctypes.c_uint16, "UInt32": ctypes.c_uint32, "UInt64": ctypes.c_uint64, "Float": ctypes.c_float,
      "Double": ctypes.c_double, "Half": ctypes.c_uint16, "BFloat": ctypes.c_uint16}
FROM_NP = {np.dtype(v): k for k, v in NP.items()}


class OutOfBounds(Exception):
    pass


class World:
    """state of one run outside the simulated processes"""
    programs = []   # everything that was ever compiled
    executed = []   # records of executions, appended by the fake native functions
    memory = {}     # thread -> [(lo, hi)] memory the running call may touch
    keep = []       # native memory that is never freed


class PrimitiveType:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "PrimitiveType." + self.name
    __str__ = __repr__


for _p in PRIMS:
    setattr(PrimitiveType, _p, PrimitiveType(_p))


class Type:
    def print(self):
        return repr(self)


class Scalar(Type):
    def __init__(self, p):
        self.primitive_type = p

    def __repr__(self):
        return "Scalar(%s)" % self.primitive_type.name


class Array(Type):
    def __init__(self, e, n):
        self.element_type, self.num_elements = e, n
        self.primitive_type = e.primitive_type

    def __repr__(self):
        return "Array(%r, %s)" % (self.element_type, self.num_elements)


class Pointer(Type):
    def __init__(self, p=None):
        self._p = p

    def has_pointee_type(self):
        return self._p is not None

    @property
    def pointee_type(self):
        return self._p

    @property
    def primitive_type(self):
        return self._p.primitive_type if self._p is not None else PrimitiveType.Void

    def __repr__(self):
        return "Pointer(%r)" % (self._p,)


class Structure(Type):
    def __init__(self, name):
        self.name = name

    primitive_type = PrimitiveType.Void

    def __repr__(self):
        return "Structure(%s)" % self.name


class Tensor(Type):
    def __init__(self, element_type, shape, strides=None, offset="0"):
        self.element_type = element_type
        self.shape = [str(s) for s in shape]
        if strides is None:
            strides = []
            for i in range(len(shape)):
                strides.append("*".join(["1"] + ["(%s)" % s for s in self.shape[i + 1:]]))
        self.strides = [str(s) for s in strides]
        self.offset = offset
        self.primitive_type = element_type.primitive_type


def step(kind="sys"):
    """inside C++: other threads of this process stay excluded by the interpreter lock"""
    s = core.SIM
    t = s.me() if s else None
    if t is None:
        return
    old = t.proc.gil
    t.proc.gil = t
    try:
        s.point(kind)
    finally:
        t.proc.gil = old


def cfault(op):
    if core.SIM:
        core.SIM.fault(op, op)


def held(f):
    """run a C++ operation while holding the interpreter lock; file errors surface as RuntimeError like from std::runtime_error"""
    def g(*a, **k):
        s = core.SIM
        t = s.me() if s else None
        if t is None:
            return f(*a, **k)
        old = t.proc.gil
        t.proc.gil = t
        try:
            return f(*a, **k)
        except OSError as e:
            raise RuntimeError("filesystem error: %s" % e)
        finally:
            t.proc.gil = old
    return g


class StructuredSDFG:
    def __init__(self, name, containers, args, structs, return_type):
        self.name, self._c, self.arguments, self._structs, self.return_type = name, containers, args, structs, return_type
        self.prog = None
        self.log = []
        self._meta = {}

    @staticmethod
    def parse(text):
        d = json.loads(text)
        f = Pointer(Scalar(PrimitiveType.Float))
        s = StructuredSDFG(d["name"], {"arg%d" % i: f for i in range(d["n"])}, ["arg%d" % i for i in range(d["n"])], {}, f)
        s._meta["return_shape"] = "[" + ",".join(str(x) for x in d["out"]) + "]"
        s.prog = {"kind": "torch", "d": d}
        return s

    def type(self, name):
        return self._c[name]

    @property
    def containers(self):
        return list(self._c)

    def loop_report(self):
        return {}

    def exists(self, name):
        return name in self._c

    def is_argument(self, name):
        return name in self.arguments

    def is_transient(self, name):
        return name not in self.arguments

    def metadata(self, key):
        return self._meta.get(key, "")

    def validate(self):
        cfault("validate")
        step()
        self.log.append("validate")

    def expand(self):
        self.log.append("expand")

    def simplify(self):
        step()
        self.log.append("simplify")

    def normalize(self):
        self.log.append("normalize")

    @held
    def schedule(self, target, category, remote_tuning=False):
        cfault("schedule")
        step()
        self.log.append(["schedule", "builtin", target, category, bool(remote_tuning)])

    @held
    def dump(self, path, type=""):
        if not os.path.exists(path):
            os.makedirs(path, exist_ok=True)
        suffix = "." + type if type else ""
        with open(os.path.join(path, self.name + suffix + ".json"), "w") as f:
            f.write("{}")
        with open(os.path.join(path, self.name + suffix + ".dot"), "w") as f:
            f.write("digraph {}")

    @held
    def _compile(self, output_folder, target="none", instrumentation_mode="", capture_args=False):
        if instrumentation_mode not in ("", "ols"):
            raise RuntimeError("Unsupported instrumentation plan: " + instrumentation_mode)
        if not isinstance(capture_args, bool):
            raise TypeError("_compile(): incompatible function arguments")
        if not os.path.exists(output_folder):
            os.makedirs(output_folder, exist_ok=True)
        rec = {"prog": self.prog, "name": self.name, "args": list(self.arguments), "types": dict(self._c), "structs": dict(self._structs),
               "return_type": self.return_type, "mode": instrumentation_mode, "capture": capture_args, "target": target, "log": list(self.log)}
        World.programs.append(rec)
        pid = len(World.programs) - 1
        base = os.path.join(output_folder, self.name)
        write(base + ".h", {"h": pid})
        write(base + ".cpp", {"cpp": pid})
        tool(lambda: write(base + ".o", {"o": read(base + ".cpp", "cpp"), "h": read(base + ".h", "h")}, parts=2), "cc " + base)
        lib = os.path.join(output_folder, "lib" + self.name + ".so")
        tool(lambda: write(lib, {"so": read(base + ".o", "o"), "name": self.name}, parts=2), "ld " + lib)
        return lib


def write(path, obj, parts=1):
    text = json.dumps(obj)
    with open(path, "w") as f:
        k = len(text) // parts
        for i in range(parts):
            cfault("write")
            f.write(text[i * k:(i + 1) * k if i + 1 < parts else None])
            f.flush()
            step()


def read(path, key):
    with open(path) as f:
        return json.loads(f.read())[key]


def tool(f, cmd):
    """an external compiler or linker"""
    try:
        cfault("cc")
        f()
    except (OSError, ValueError, KeyError) as e:
        raise RuntimeError("Compilation failed: " + cmd + " (%s)" % e)


class StructuredSDFGBuilder:
    def __init__(self, name, return_type=None):
        self._name, self._rt = name, return_type
        self._c, self._args, self._structs = {}, [], {}
        self.prog = None

    def add_container(self, name, type, is_argument=False):
        if name in self._c:
            raise RuntimeError("Container already exists: " + name)
        self._c[name] = type
        if is_argument:
            self._args.append(name)

    def add_structure(self, name, members):
        self._structs[name] = list(members)

    def exists(self, name):
        return name in self._c

    def move(self):
        s = StructuredSDFG(self._name, self._c, self._args, self._structs, self._rt)
        s.prog = self.prog
        return s


def make_sdfg_module():
    """fresh classes for every simulated process: the code under test adds methods to them"""
    m = types.ModuleType("docc.sdfg")
    sub = type("StructuredSDFG", (StructuredSDFG,), {})
    sub.parse = staticmethod(lambda text: _as(sub, StructuredSDFG.parse(text)))
    bld = type("StructuredSDFGBuilder", (StructuredSDFGBuilder,), {"move": lambda self: _as(sub, StructuredSDFGBuilder.move(self))})
    for n, v in dict(PrimitiveType=PrimitiveType, Type=Type, Scalar=Scalar, Array=Array, Pointer=Pointer, Structure=Structure, Tensor=Tensor,
                     StructuredSDFG=sub, StructuredSDFGBuilder=bld).items():
        setattr(m, n, v)
    m.__getattr__ = lambda n: type(n, (), {}) if not n.startswith("__") else (_ for _ in ()).throw(AttributeError(n))
    m.__path__ = []
    return m


def _as(cls, s):
    s.__class__ = cls
    return s


# ------------------------------------------------------------------------------------------------- the parser's stand-in
SAFE_ATTR = {"shape", "T", "ndim"}


class ASTParser:
    """records what the real parser would translate; derives result shapes and types the way the real one does (size-1 dimensions
    broadcast only when they are the literal 1, the first of two differing symbols wins)"""

    def __init__(self, builder, tensor_table, container_table, filename="", function_name="", infer_return_type=False, globals_dict=None,
                 structure_member_info=None, **kw):
        cfault("parse")
        step()
        self.builder, self.tensors, self.containers = builder, tensor_table, container_table
        self.globals_dict = globals_dict or {}
        self.infer = infer_return_type
        self.members = structure_member_info or {}
        self.captured_return_shapes, self.captured_return_strides = {}, {}
        self.memory_handler = self
        self.body = []
        self.inputs = [n for n in container_table if not (n.startswith("_s") and n[2:].isdigit())]
        builder.prog = {"kind": "python", "body": self.body, "inputs": self.inputs, "tensors": dict(tensor_table),
                        "globals": {k: v for k, v in self.globals_dict.items() if isinstance(v, (bool, int, float))},
                        "outs": self.captured_return_shapes, "members": json_members(self.members)}
        builder.prog["globals"]["np"] = np

    def visit(self, node):
        self.body.append(node)
        if isinstance(node, ast.Return) and node.value is not None:
            vals = node.value.elts if isinstance(node.value, ast.Tuple) else [node.value]
            for i, v in enumerate(vals):
                self.output(i, v)

    def emit_allocations(self):
        step()

    # shape and type of a returned expression
    def output(self, i, v):
        name = "_docc_ret_%d" % i
        shape = self.shape(v)
        dt = np.asarray(self.dummy(v)).dtype
        if not self.builder.exists(name):
            if dt not in FROM_NP:
                raise NotImplementedError("return type %s" % dt)
            self.builder.add_container(name, Pointer(Scalar(getattr(PrimitiveType, FROM_NP[dt]))), is_argument=True)
        if shape:
            self.captured_return_shapes[name] = list(shape)
            st = []
            for k in range(len(shape)):
                rest = shape[k + 1:]
                st.append("1" if not rest else rest[0] if len(rest) == 1 else "(" + " * ".join(rest) + ")")
            self.captured_return_strides[name] = st

    def shape(self, v):
        if isinstance(v, ast.Name):
            return list(self.tensors[v.id].shape) if v.id in self.tensors else []
        if isinstance(v, (ast.BinOp, ast.Compare)):
            a, b = self.shape(v.left), self.shape(v.right if isinstance(v, ast.BinOp) else v.comparators[0])
            if isinstance(v, ast.BinOp) and isinstance(v.op, ast.MatMult):
                return [a[0], b[1]]
            n = max(len(a), len(b))
            a = ["1"] * (n - len(a)) + a
            b = ["1"] * (n - len(b)) + b
            return [y if x == "1" else x for x, y in zip(a, b)]
        if isinstance(v, ast.UnaryOp):
            return self.shape(v.operand)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "abs":
            return self.shape(v.args[0])
        if isinstance(v, ast.Subscript) and isinstance(v.value, ast.Name):
            n = len(v.slice.elts) if isinstance(v.slice, ast.Tuple) else 1
            return list(self.tensors[v.value.id].shape)[n:]
        return []

    def dummy(self, v):
        env = dict(np=np)
        for k, g in self.globals_dict.items():
            if isinstance(g, (int, float)):
                env[k] = g
        for n in self.inputs:
            t = self.containers[n]
            if n in self.tensors:
                dims = tuple(1 for _ in self.tensors[n].shape)
                env[n] = np.ones(dims, NP[self.tensors[n].primitive_type.name])
            elif isinstance(t, Scalar):
                env[n] = scalar(t.primitive_type.name, 1)
            else:
                o = types.SimpleNamespace()
                for mn, (_, mt) in self.members.get(t.pointee_type.name, {}).items():
                    setattr(o, mn, scalar(mt.primitive_type.name, 1))
                env[n] = o
        v = ast.fix_missing_locations(ast.Expression(Zero().visit(copy_ast(v))))
        return eval(compile(v, "<dummy>", "eval"), env)


class Zero(ast.NodeTransformer):
    """element accesses of the all-ones dummy arrays go to the only element"""
    def visit_Subscript(self, node):
        n = len(node.slice.elts) if isinstance(node.slice, ast.Tuple) else 1
        z = ast.Constant(0) if n == 1 else ast.Tuple([ast.Constant(0)] * n, ast.Load())
        return ast.Subscript(node.value, z, ast.Load())


def copy_ast(v):
    return ast.parse(ast.unparse(v), mode="eval").body


def json_members(m):
    return {k: [(n, t.primitive_type.name) for n, (i, t) in sorted(v.items(), key=lambda x: x[1][0])] for k, v in m.items()}


def scalar(prim, v):
    if prim == "Double":
        return float(v)
    if prim == "Int64":
        return int(v)
    if prim == "Bool":
        return bool(v)
    return NP[prim](v)


# ------------------------------------------------------------------------------------------------- loader and native execution
class FakeLib:
    def __init__(self, path, rec, name):
        self._path, self._rec, self._sym = path, rec, name
        self._fns = {}

    def __getattr__(self, n):
        if n != self._sym:
            raise AttributeError("%s: undefined symbol: %s" % (self._path, n))
        if n not in self._fns:
            self._fns[n] = FakeFunc(self._rec)
        return self._fns[n]


def dlopen(path):
    """glibc: a name that is already loaded is not looked up again; neither is a file that is already mapped"""
    t = core.SIM.me()
    p = t.proc
    path = os.fspath(path)
    cfault("dlopen")
    core.SIM.point("sys")
    if path in p.dl:
        return FakeLib(path, p.dl[path][0], p.dl[path][1])
    f = open(path, "rb")
    st = os.fstat(f.fileno())
    for k, (rec, name, keep, ino) in list(p.dl.items()):
        if ino == (st.st_dev, st.st_ino):
            p.dl[path] = (rec, name, keep, ino)
            f.close()
            return FakeLib(path, rec, name)
    try:
        d = json.loads(f.read())
        rec = World.programs[d["so"]]
    except Exception:
        f.close()
        raise OSError("%s: file too short" % path)
    p.dl[path] = (rec, d["name"], f, (st.st_dev, st.st_ino))  # the open file keeps the inode alive, like a mapping
    core.SIM.point("sys")
    return FakeLib(path, rec, d["name"])


def CDLL(name, *a, **k):
    if name is None or not os.fspath(name).endswith(".so") and ".so" not in os.fspath(name):
        raise OSError("%s: cannot open shared object file" % name)
    return dlopen(name)


class FakeFunc:
    def __init__(self, rec):
        self._rec = rec
        self.argtypes = None
        self.restype = ctypes.c_int

    def __call__(self, *args):
        rec = self._rec
        core.SIM.point("sys")
        if self.argtypes is not None:
            if len(args) < len(self.argtypes):
                raise TypeError("this function takes at least %d arguments (%d given)" % (len(self.argtypes), len(args)))
            for a, t in zip(args, self.argtypes):
                t.from_param(a)
        World.executed.append((core.SIM.me().tid, rec))
        r = run_native(rec, args, self.restype)
        core.SIM.point("sys")
        return r


def address(a):
    if a is None:
        return 0
    if hasattr(a, "_obj"):  # byref()
        o = a._obj
        core.SIM.addr_sizes[ctypes.addressof(o)] = ctypes.sizeof(o)
        return ctypes.addressof(o)
    return ctypes.cast(a, ctypes.c_void_p).value or 0


def view(addr, prim, shape, strides, what):
    dt = np.dtype(NP[prim])
    lo = hi = 0
    for n, s in zip(shape, strides):
        if n < 0:
            raise OutOfBounds("%s: negative extent %d" % (what, n))
        if n == 0:
            return np.zeros(shape, dt)
        if s > 0:
            hi += (n - 1) * s
        else:
            lo += (n - 1) * s
    lo, hi = addr + lo * dt.itemsize, addr + (hi + 1) * dt.itemsize
    ok = any(a <= lo and hi <= b for a, b in World.memory.get(core.SIM.me().tid, []))
    if not ok:
        n = core.SIM.addr_sizes.get(addr)
        ok = n is not None and lo == addr and hi <= addr + n
    if not ok:
        raise OutOfBounds("%s: the compiled code touches [%d, %d) bytes around the passed address, outside the argument's memory" % (what, lo - addr, hi - addr))
    buf = (ctypes.c_char * (hi - lo)).from_address(lo)
    base = np.frombuffer(buf, dt)
    return np.ndarray(tuple(shape), dt, base, addr - lo, tuple(s * dt.itemsize for s in strides))


def run_native(rec, args, restype):
    prog = rec["prog"]
    if prog["kind"] == "torch":
        return run_torch(rec, args, restype)
    env, addrs, syms = dict(prog["globals"]), {}, {}
    if len(args) != len(rec["args"]):
        raise OutOfBounds("the compiled function has %d parameters, %d arguments were passed" % (len(rec["args"]), len(args)))
    for name, a in zip(rec["args"], args):
        t = rec["types"][name]
        if isinstance(t, Scalar):
            syms[name] = a.value if hasattr(a, "value") else a
            env[name] = scalar(t.primitive_type.name, syms[name])
        elif isinstance(t, Pointer) and isinstance(t.pointee_type, Structure):
            names = prog["members"][t.pointee_type.name]
            cls = type("S", (ctypes.Structure,), {"_fields_": [("m%d" % i, CT[x.primitive_type.name]) for i, x in enumerate(rec["structs"][t.pointee_type.name])]})
            obj = a.contents if hasattr(a, "contents") else None
            if obj is None or ctypes.sizeof(obj) < ctypes.sizeof(cls):
                raise OutOfBounds("structure %s: %d bytes are read, fewer were passed" % (t.pointee_type.name, ctypes.sizeof(cls)))
            s = cls.from_address(ctypes.addressof(obj))
            o = types.SimpleNamespace()
            for i, (n, p) in enumerate(names):
                setattr(o, n, scalar(p, getattr(s, "m%d" % i)))
            env[name] = o
        else:
            addrs[name] = address(a)

    def ev(e):
        return int(eval(str(e), {"idiv": lambda x, y: int(x) // int(y)}, syms))
    for name, t in prog["tensors"].items():
        env[name] = view(addrs[name], t.primitive_type.name, [ev(s) for s in t.shape], [ev(s) for s in t.strides], "argument " + name)
    fn = ast.FunctionDef(name="_native", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                         body=[ast.Global(names=sorted(env))] * 0 + list(prog["body"]), decorator_list=[], type_params=[])
    for n in assigned(fn):
        if n in env:  # parameters are locals of the body
            fn.args.args.append(ast.arg(arg=n))
    code = compile(ast.fix_missing_locations(ast.Module([fn], [])), "<native>", "exec")
    exec(code, env)
    t = core.SIM.me()
    t.internal += 1
    try:
        with np.errstate(all="ignore"):
            res = env["_native"](*[env[a.arg] for a in fn.args.args])
    except (IndexError, ValueError) as e:
        raise OutOfBounds("native code would fault: %r" % e)
    finally:
        t.internal -= 1
    outs = [n for n in rec["args"] if n.startswith("_docc_ret_")]
    if outs:
        vals = res if isinstance(res, tuple) else (res,)
        if len(vals) != len(outs):
            raise OutOfBounds("%d values returned, %d expected" % (len(vals), len(outs)))
        for n, v in sorted(zip(sorted(outs, key=lambda x: int(x.split("_")[-1])), vals)):
            prim = rec["types"][n].pointee_type.primitive_type.name
            dims = [ev(s) for s in prog["outs"].get(n, [])]
            size = 1
            for d in dims:
                size *= d
            st, acc = [], 1
            for d in reversed(dims):
                st.insert(0, acc)
                acc *= d
            w = view(addrs[n], prim, dims, st, "result " + n)
            v = np.asarray(v)
            # generated loops cover exactly the extents known at compile time
            if v.ndim != len(dims):
                raise OutOfBounds("result %s has rank %d, compiled for %d" % (n, v.ndim, len(dims)))
            cut = tuple(slice(0, min(x, y)) for x, y in zip(v.shape, dims))
            if size:
                if dims:
                    w[cut] = v[cut]
                else:
                    w[()] = v[()]
    return None


def assigned(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
            out.append(n.id)
    return out


# ------------------------------------------------------------------------------------------------- torch
class FTensor:
    def __init__(self, arr):
        self._a = arr
        self.device = "cpu"

    @property
    def shape(self):
        return self._a.shape

    @property
    def dtype(self):
        return "torch." + str(self._a.dtype)

    def detach(self):
        return self

    def cpu(self):
        return self

    def to(self, dev):
        return self

    def contiguous(self):
        return FTensor(np.ascontiguousarray(self._a))

    def numpy(self):
        return self._a

    def reshape(self, s):
        return FTensor(self._a.reshape(s))


def torch_modules():
    torch = types.ModuleType("torch")
    torch.__path__ = []
    torch.Tensor = FTensor
    torch.from_numpy = FTensor
    torch.device = lambda n: n
    fx = types.ModuleType("torch.fx")
    fx.GraphModule = type("GraphModule", (), {})
    torch.fx = fx
    tm = types.ModuleType("torch_mlir")
    tm.__path__ = []
    tfx = types.ModuleType("torch_mlir.fx")

    def export(model, *inputs, output_type=None):
        cfault("parse")
        step()
        out = model(*[x._a for x in inputs]).shape
        return json.dumps({"name": "__docc_main", "cls": type(model).__name__, "spec": model.spec, "n": len(inputs),
                           "in": [list(x.shape) for x in inputs], "out": list(out)})
    tfx.export_and_import = export
    tm.fx = tfx
    mlir = types.ModuleType("docc.mlir")

    class MLIRModule:
        def __init__(self, text):
            self.text = text

        def convert(self):
            step()

        def translate(self):
            return self.text
    mlir.MLIRModule = MLIRModule
    return {"torch": torch, "torch.fx": fx, "torch_mlir": tm, "torch_mlir.fx": tfx, "docc.mlir": mlir}


def torch_eval(spec, *xs):
    """model semantics: op over float32 inputs with weights baked in"""
    r = xs[0] * np.float32(spec["w"]) + np.float32(spec["b"])
    for x in xs[1:]:
        r = r + x
    if spec.get("sum"):
        r = r.sum(axis=0)
    return r.astype(np.float32)


def run_torch(rec, args, restype):
    d = rec["prog"]["d"]
    xs = []
    for a, shp in zip(args, d["in"]):
        st, acc = [], 1
        for n in reversed(shp):
            st.insert(0, acc)
            acc *= n
        xs.append(view(address(a), "Float", shp, st, "tensor"))
    r = np.ascontiguousarray(torch_eval(d["spec"], *xs))
    mem = (ctypes.c_float * max(1, r.size)).from_buffer_copy(r.tobytes() or b"\0\0\0\0")
    World.keep.append(mem)
    return ctypes.cast(mem, restype)
