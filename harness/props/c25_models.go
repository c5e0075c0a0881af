package props

import "verifharness/eng"

func init() {
	registerModels("C25", "layers", 60000, 1500000,
		"linear", "activation", "highway", "gmlpblock", "gmlp", "sgu", "mlpmixer", "sqrdist", "flatten", "dropout", "slstm", "slstm")
	eng.Register("C25", "stacks",
		"a sequence of up to four layers of any kind, one of them possibly repeated, with outputs and gradients compared with the reference",
		15000, 400000, genShared, evalModel)
}
