#!/usr/bin/env python3
"""Redirect every double-precision operation of an LLVM IR file to the symbolic
runtime.  usage: rewrite.py in.ll out.ll   (prints a JSON summary on stdout)"""
import json, re, sys

LIBM1 = "exp log log10 log2 log1p expm1 sqrt cbrt fabs floor ceil trunc round rint nearbyint exp2 sin cos tan tanh erf erfc".split()
LIBM2 = "pow fmin fmax fmod hypot copysign fdim atan2".split()
INTR1 = "exp log log10 log2 sqrt fabs floor ceil trunc round rint nearbyint exp2".split()
INTR2 = {"pow": "pow", "minnum": "fmin", "maxnum": "fmax", "copysign": "copysign",
         "minimum": "fmin", "maximum": "fmax"}
OTHER = {"exit": "sym_exit", "abort": "sym_abort", "printf": "sym_printf", "puts": "sym_puts",
         "putchar": "sym_putchar", "fprintf": "sym_fprintf", "__isoc99_fscanf": "sym_fscanf", "__isoc23_fscanf": "sym_fscanf", "fscanf": "sym_fscanf", "gettimeofday": "sym_gettimeofday",
         "isnan": "sym_isnan", "isinf": "sym_isinf", "lround": "sym_lround", "lrint": "sym_lround",
         "__kmpc_fork_call": "sym_kmpc_fork_call"}

VAL = r"(?:[%@][\w.$\-]+|-?[\d.]+e[+-]?\d+|0x[0-9A-F]+|undef|poison|zeroinitializer)"
FAST = r"(?:(?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast) )*"
RE_BIN = re.compile(rf"^(\s*%[\w.$\-]+ = )(fadd|fsub|fmul|fdiv|frem) {FAST}double ({VAL}), ({VAL})(.*)$")
RE_NEG = re.compile(rf"^(\s*%[\w.$\-]+ = )fneg {FAST}double ({VAL})(.*)$")
RE_CMP = re.compile(rf"^(\s*%[\w.$\-]+ = )fcmp {FAST}(\w+) double ({VAL}), ({VAL})(.*)$")
RE_TOI = re.compile(rf"^(\s*%[\w.$\-]+ = )fpto(s|u)i double ({VAL}) to (i\d+)(.*)$")
RE_INT = re.compile(r"@llvm\.(\w+)\.f64\b")
RE_CLS = re.compile(r"call i1 @llvm\.is\.fpclass\.f64\(")
RE_FMA = re.compile(r"@llvm\.(?:fmuladd|fma)\.f64\b")
PREDS = "oeq ogt oge olt ole one ord ueq ugt uge ult ule une uno".split()


RE_DEF = re.compile(r"^define [^@]*@([\w.$]+|\"[^\"]+\")\(")


def rewrite(text, track=False):
    fn_names = []
    tail = []
    counts = {}
    left = []
    out = []
    names = {}
    for f in LIBM1 + LIBM2:
        names[f] = "sym_" + f
    names.update(OTHER)
    names["fma"] = "sym_fma"
    rx_names = re.compile(r"@(" + "|".join(sorted(names, key=len, reverse=True)) + r")\b(?=[(),\s])")
    # functions the translation unit defines itself keep their names
    own = set(re.findall(r"^define [^@]*@([\w.$]+)\(", text, re.M))
    decl = set(re.findall(r"^declare [^@]*@([\w.$]+)\(", text, re.M))
    used = set()
    drop_decl = re.compile(r"^declare .*@(llvm\.\w+\.f64)\b")

    def cnt(k):
        counts[k] = counts.get(k, 0) + 1

    cur_fn = None
    for line in text.split("\n"):
        if track and line.startswith("define "):
            m = RE_DEF.match(line)
            cur_fn = m.group(1) if m and "linkonce" not in line and "internal" not in line.split("@")[0] else None
        elif cur_fn and line and not line.startswith("}"):
            # first instruction of the entry block
            if re.match(r"^[\w.$\-\"]+:", line):
                out.append(line)
                line = None
            fn_names.append(cur_fn)
            n = cur_fn.strip('"')
            k = f"@.sym.fn.{len(fn_names)}"
            tail.append(f'{k} = private constant [{len(n) + 1} x i8] c"{n}\\00"')
            out.append(f"  call void @sym_fn(ptr {k})")
            cur_fn = None
            if line is None:
                continue
        m = RE_BIN.match(line)
        if m:
            cnt(m.group(2)); used.add(("d2", "sym_" + m.group(2)))
            out.append(f"{m.group(1)}call double @sym_{m.group(2)}(double {m.group(3)}, double {m.group(4)})")
            continue
        m = RE_NEG.match(line)
        if m:
            cnt("fneg"); used.add(("d1", "sym_fneg"))
            out.append(f"{m.group(1)}call double @sym_fneg(double {m.group(2)})")
            continue
        m = RE_CMP.match(line)
        if m:
            p = m.group(2)
            if p in ("true", "false"):
                out.append(line); continue
            cnt("fcmp"); used.add(("c", "sym_fcmp_" + p))
            out.append(f"{m.group(1)}call zeroext i1 @sym_fcmp_{p}(double {m.group(3)}, double {m.group(4)})")
            continue
        m = RE_TOI.match(line)
        if m:
            cnt("fptoi"); used.add(("i", "sym_fptosi"))
            t = m.group(4)
            dst = m.group(1)
            if t == "i64":
                out.append(f"{dst}call i64 @sym_fptosi(double {m.group(3)})")
            else:
                tmp = "%sym.tmp." + str(len(out))
                out.append(f"  {tmp} = call i64 @sym_fptosi(double {m.group(3)})")
                out.append(f"{dst}trunc i64 {tmp} to {t}")
            continue
        if drop_decl.match(line):
            continue
        m = RE_CLS.search(line)
        if m:
            line = RE_CLS.sub("call zeroext i1 @sym_is_fpclass(", line)
            line = re.sub(r" #\d+", "", line)
            used.add(("cls", "sym_is_fpclass"))
        m = RE_INT.search(line)
        if m and not line.startswith("declare"):
            n = m.group(1)
            if n in ("fmuladd", "fma"):
                line = RE_FMA.sub("@sym_fma", line); used.add(("d3", "sym_fma"))
            elif n in INTR1:
                line = RE_INT.sub("@sym_" + n, line); used.add(("d1", "sym_" + n))
            elif n in INTR2:
                line = RE_INT.sub("@sym_" + INTR2[n], line); used.add(("d2", "sym_" + INTR2[n]))
            else:
                left.append(line.strip())
            cnt(n)
            line = re.sub(r" #\d+", "", line)
        if "@" in line:
            def sub(mm):
                n = mm.group(1)
                if n in own:
                    return mm.group(0)
                cnt(n)
                return "@" + names[n]
            new = rx_names.sub(sub, line)
            if new != line:
                new = re.sub(r" #\d+", "", new)
                # the stand-ins may throw: never nounwind / noreturn-by-attribute
                if new.startswith("declare"):
                    nm = re.search(r"@([\w.$]+)\(", new).group(1)
                    used = {u for u in used if u[1] != nm} | {("have", nm)}
                line = new
        if re.search(r"= (fadd|fsub|fmul|fdiv|frem|fneg|fcmp|fptosi|fptoui|fptrunc|fpext)\b", line) or re.search(r"<\d+ x double>", line):
            left.append(line.strip())
        out.append(line)
    have = {n for k, n in used if k == "have"} | own
    proto = {"d1": "declare double @{}(double)", "d2": "declare double @{}(double, double)",
             "d3": "declare double @{}(double, double, double)",
             "c": "declare zeroext i1 @{}(double, double)", "i": "declare i64 @{}(double)",
             "cls": "declare zeroext i1 @{}(double, i32)"}
    for k, n in sorted(used):
        if k in proto and n not in have:
            out.append(proto[k].format(n)); have.add(n)
    if tail:
        out += tail + ["declare void @sym_fn(ptr)"]
    return "\n".join(out) + "\n", counts, left


if __name__ == "__main__":
    txt, counts, left = rewrite(open(sys.argv[1]).read(), "--track" in sys.argv)
    open(sys.argv[2], "w").write(txt)
    print(json.dumps({"ops": counts, "left": left}))
