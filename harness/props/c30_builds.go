package props

import "verifharness/eng"

// The same cases and oracles as for C01, C02, C04, C05 and C09, evaluated with
// the code that other processors and builds run: without some or all of the
// vector extensions, without any assembly, and on a 32-bit architecture.
func init() {
	envs := []struct {
		name string
		opts []eng.Opt
		k    int // share of the cases, in percent
	}{
		{"sse", []eng.Opt{eng.Env("GODEBUG=cpu.avx=off,cpu.avx2=off,cpu.fma=off")}, 100},
		{"avx", []eng.Opt{eng.Env("GODEBUG=cpu.avx2=off,cpu.fma=off")}, 40},
		{"avx2", []eng.Opt{eng.Env("GODEBUG=cpu.fma=off")}, 25},
		{"pure", []eng.Opt{eng.Build("pure")}, 100},
		{"word32", []eng.Opt{eng.Build("word32")}, 50},
	}
	of := []struct {
		prop, sub       string
		quick, thorough int
	}{
		{"C01", "arith", 40000, 800000}, {"C01", "ieee", 40000, 800000}, {"C01", "matmul", 12000, 200000},
		{"C04", "elementwise", 60000, 2000000}, {"C02", "struct", 20000, 400000}, {"C05", "operators", 10000, 200000},
		{"C09", "roundtrip", 20000, 400000},
	}
	// The rest of the library on a 32-bit architecture and without assembly.
	more := []struct {
		prop, sub       string
		quick, thorough int
	}{
		{"C03", "histories", 6000, 120000}, {"C08", "linear", 1000, 20000}, {"C10", "roundtrip", 1000, 20000},
		{"C12", "history", 2000, 40000}, {"C14", "clip", 4000, 80000}, {"C16", "enumerate", 400, 8000},
		{"C17", "layers", 2000, 40000}, {"C18", "layers", 1000, 20000}, {"C19", "layers", 3000, 60000},
		{"C20", "layers", 3000, 60000}, {"C21", "logits", 4000, 80000}, {"C22", "scores", 1500, 30000},
		{"C23", "streams", 500, 10000}, {"C23", "laws", 150, 3000}, {"C23", "choices", 500, 10000},
		{"C24", "history", 2000, 40000}, {"C25", "layers", 3000, 60000}, {"C26", "matrices", 60000, 1200000},
		{"C26", "operators", 40000, 800000}, {"C26", "config", 6000, 120000}, {"C27", "views", 6000, 120000},
		{"C27", "format", 6000, 120000}, {"C28", "train", 500, 10000}, {"C29", "wrappers", 4000, 80000},
	}
	for _, o := range more {
		eng.Again("C30", "word32-"+o.prop+o.sub, o.prop, o.sub, o.quick, o.thorough, eng.Build("word32"))
	}
	for _, e := range envs {
		for _, o := range of {
			if e.k < 100 && e.name != "word32" && o.prop != "C01" && o.prop != "C04" {
				continue
			}
			eng.Again("C30", e.name+"-"+o.sub, o.prop, o.sub, o.quick*e.k/100, o.thorough*e.k/100, e.opts...)
		}
	}
}
