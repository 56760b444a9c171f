"""Generates code for the corpus of types with /repo's own yamlygen, in a scratch copy of the harness module."""
import os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor

GLUE = '''package corpus

import (
	"github.com/KSpaceer/yamly"
%s
	"verif/genm"
)

var code = &genm.Code{
	E: %d,
	D: d0,
	Encode: func(out yamly.Inserter, g *genm.G) {
		var v T
		fill0(g, &v)
		v.MarshalYamly(out)
	},
	Decode: func(in yamly.Decoder) *genm.G {
		var v T
		v.UnmarshalYamly(in)
		return view0(&v)
	},
	Over: func(in yamly.Decoder, g *genm.G) *genm.G {
		var v T
		fill0(g, &v)
		v.UnmarshalYamly(in)
		return view0(&v)
	},
	Marshal: func(g *genm.G) ([]byte, error) {
		var v T
		fill0(g, &v)
%s
	},
	Unmarshal: func(data []byte) (*genm.G, error) {
		var v T
%s
		return view0(&v), err
	},
}

func HEnc(hot, n, depth int)           { code.Enc(hot, n, depth) }
func HTxt(hot, n, depth int)           { code.Txt(hot, n, depth) }
func HDec(src, hot, depth, scs int) { code.Dec(src, hot, depth, scs) }
func HInto(hot, depth, scs int)        { code.Into(hot, depth, scs) }
func HKeys(hot, depth, str int)        { code.Keys(hot, depth, str) }
func HBad(n int)                       { code.Bad(n) }
'''
ENGINE = {
    "y": ("yayamls", GLUE % ("", 0, "\t\treturn v.MarshalYAML()", "\t\terr := v.UnmarshalYAML(data)")),
    "g": ("goyaml", GLUE % ('\tgencode "github.com/KSpaceer/yamly/engines/goyaml/encode"\n\t"gopkg.in/yaml.v3"\n', 1,
                            "\t\tn, err := v.MarshalYAML()\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn new(gencode.ASTWriter).WriteBytes(n.(*yaml.Node))",
                            "\t\tvar n yaml.Node\n\t\tif err := yaml.Unmarshal(data, &n); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\terr := v.UnmarshalYAML(&n)")),
}


def generate(harn, scratch, env, wanted, repo="/repo"):
    """Returns (module directory, {package: log} of what could not be generated or compiled, fatal error)."""
    mod = os.path.join(scratch, "harness")
    shutil.copytree(harn, mod, ignore=lambda d, n: ["gen"] if d == harn else [])
    tool = os.path.join(scratch, "yamlygen")
    run = lambda cmd, cwd: subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    r = run(["go", "build", "-o", tool, "./cmd/yamlygen"], repo)
    if r.returncode:
        return mod, {}, r.stdout
    r = run(["go", "build", "github.com/KSpaceer/yamly/engines/...", "./..."], mod)  # the library and the harnesses themselves
    if r.returncode:
        return mod, {}, r.stdout

    def one(p):
        e, name = p.split("_", 1)
        src, dst = os.path.join(harn, "gen", name), os.path.join(mod, "gen", p)
        os.makedirs(dst)
        shutil.copy(os.path.join(src, "types.go"), dst)
        flags = re.search(r"^// flags:(.*)$", open(os.path.join(src, "types.go")).read(), re.M)
        r = run([tool, "-type", "T", "-engine", ENGINE[e][0], *(flags.group(1).split() if flags else []), dst], mod)
        if r.returncode:
            return p, "yamlygen: " + r.stdout
        shutil.copy(os.path.join(src, "desc.go"), dst)
        open(os.path.join(dst, "glue.go"), "w").write(ENGINE[e][1])
        r = run(["go", "build", "./gen/" + p], mod)
        return p, ("generated code: " + r.stdout) if r.returncode else None
    with ThreadPoolExecutor(8) as ex:
        res = dict(ex.map(one, sorted(wanted)))
    return mod, {p: l for p, l in res.items() if l}, None
