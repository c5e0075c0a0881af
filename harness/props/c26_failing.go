package props

import (
	"context"
	"encoding/json"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// failCase is a graph with one operator that fails, run in a process of its own.
type failCase struct {
	Where     string // what fails: nothing, forward, backward, shapes (of an operator of the library)
	Before    int    // operators between the leaf and the failing one
	After     int    // operators on top of it
	Side      int    // other operators that succeed
	Async     bool   // the operators run asynchronously
	ForceSync bool
	Slow      bool // the failure comes late
}

func genFail(t *rapid.T) failCase {
	return failCase{Where: gen.Pick(t, "nothing", "forward", "backward", "backward", "shapes"), Before: gen.UInt(t, 0, 3), After: gen.UInt(t, 0, 3),
		Side: gen.UInt(t, 0, 3), Async: gen.Bool(t), ForceSync: gen.Chance(t, 20), Slow: gen.Chance(t, 30)}
}

// failFn doubles its operand, or fails.
type failFn struct {
	x        mat.Tensor
	fwd, bwd bool
	slow     bool
}

func (f *failFn) Operands() []mat.Tensor { return []mat.Tensor{f.x} }

func (f *failFn) Forward() (mat.Tensor, error) {
	v := f.x.Value().(mat.Matrix)
	if f.slow {
		time.Sleep(5 * time.Millisecond)
	}
	if f.fwd {
		return nil, errors.New("probe: forward failed")
	}
	return v.ProdScalar(2), nil
}

func (f *failFn) Backward(gy mat.Tensor) error {
	if f.slow {
		time.Sleep(5 * time.Millisecond)
	}
	if f.bwd {
		return errors.New("probe: backward failed")
	}
	if f.x.RequiresGrad() {
		f.x.AccGrad(gy.(mat.Matrix).ProdScalar(2))
	}
	return nil
}

const failEnv = "VERIF_FAIL_PROBE"

// run executes the case and says what its caller sees.
func (c failCase) run() string {
	ag.SetForceSyncExecution(c.ForceSync)
	leaf := mat.NewDense[float64](mat.WithShape(2, 1), mat.WithBacking([]float64{1, 2}), mat.WithGrad(true))
	wrap := func(x mat.Tensor, fwd, bwd bool) mat.Tensor {
		return ag.NewOperator(&failFn{x, fwd, bwd, c.Slow}).Run(c.Async)
	}
	var x mat.Tensor = leaf
	for i := 0; i < c.Before; i++ {
		x = wrap(x, false, false)
	}
	switch c.Where {
	case "shapes":
		x = ag.Add(x, mat.NewDense[float64](mat.WithShape(3, 1), mat.WithGrad(true)))
	default:
		x = wrap(x, c.Where == "forward", c.Where == "backward")
	}
	for i := 0; i < c.After; i++ {
		x = wrap(x, false, false)
	}
	for i := 0; i < c.Side; i++ {
		x = ag.Add(x, ag.Tanh(leaf))
	}
	y := ag.ReduceSum(x)
	if v := y.Value(); v == nil {
		return "reported without a value"
	}
	if err := ag.Backward(y); err != nil {
		return "reported by an error: " + err.Error()
	}
	return "finished"
}

func evalFail(ctx *eng.Ctx, c failCase) error {
	if os.Getenv(failEnv) != "" { // the process of its own
		return errf("probe-result %s", c.run())
	}
	dir, err := os.MkdirTemp(ctx.Scratch, "p")
	if err != nil {
		return errf("harness: %v", err)
	}
	defer os.RemoveAll(dir)
	raw, err := json.Marshal(c)
	if err != nil {
		return errf("harness: %v", err)
	}
	cf := filepath.Join(dir, "case.json")
	if err := os.WriteFile(cf, raw, 0o644); err != nil {
		return errf("harness: %v", err)
	}
	self, _ := os.Executable()
	limit, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(limit, self, "eval", "C26", "failing", cf, dir)
	cmd.Env = append(os.Environ(), failEnv+"=1", "TMPDIR="+dir)
	out, runErr := cmd.CombinedOutput()
	text := string(out)
	ctx.Label("%s", c.Where)
	ctx.NTIf(c.Where != "nothing")
	if limit.Err() != nil {
		return errf("a graph in which %s fails blocks: %s", c.Where, text)
	}
	var ex *exec.ExitError
	if runErr == nil || !errors.As(runErr, &ex) { // the probe never exits with 0
		return errf("harness: %v: %s", runErr, text)
	}
	finished := strings.Contains(text, "probe-result finished")
	if c.Where == "nothing" {
		if !finished {
			return errf("a graph in which nothing fails does not finish: %s", text)
		}
		return nil
	}
	if finished {
		return errf("the failure (%s) of an operator is ignored: forward and backward pass finish as if nothing had happened", c.Where)
	}
	return nil
}

func init() {
	eng.Register("C26", "failing", "an operator of the graph fails", 200, 4000, genFail, evalFail)
}
