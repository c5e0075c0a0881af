package props

func init() {
	registerModels("C20", "layers", 60000, 1500000, "conv1x1", "conv1d", "conv2d", "maxpool")
}
