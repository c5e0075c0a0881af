package props

import (
	"context"
	"fmt"
	"sync"
	"time"

	"pgregory.net/rapid"

	"verifharness/eng"
	"verifharness/gen"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/linear"
)

// Node is a model with a field of every supported container kind.
type Node struct {
	nn.Module
	*Base
	Mixin
	A      *nn.Param
	Buf    *nn.Buffer
	Model  nn.Model
	Any    any
	Ptr    *Node
	Val    Leaf
	Ps     []*nn.Param
	Ms     []nn.Model
	Anys   []any
	Ptrs   []*Node
	Vals   []Leaf
	PArr   [3]*nn.Param
	MArr   [3]nn.Model
	AArr   [3]any
	PS     map[string]*nn.Param
	PI     map[int]*nn.Param
	MS     map[string]nn.Model
	MI     map[int]nn.Model
	AS     map[string]any
	Sync   *sync.Map
	Emb    *embedding.Model
	Shared embedding.Shared
	List   nn.ModuleList[nn.StandardModel]
	Trav   traverser
	Trs    []traverser
	Note   string
	Nums   []float64
	Err    error
	Fn     func()
	B      *nn.Param
	hidden *nn.Param
}

// Leaf is a model used by value.
type Leaf struct {
	nn.Module
	W *nn.Param
}

// Base is a model embedded by pointer.
type Base struct {
	nn.Module
	BaseW *nn.Param
	BaseL nn.Model
}

// Mixin is a model embedded by value.
type Mixin struct {
	nn.Module
	MixW *nn.Param
}

// traverser has its own traversal and is not a model.
type traverser struct{ ps []*nn.Param }

// TraverseParams calls back for each of its parameters.
func (t traverser) TraverseParams(f func(*nn.Param)) {
	for _, p := range t.ps {
		f(p)
	}
}

// slots of a Node, with the kinds of item each can hold:
// p parameter, m model, v leaf by value, l linear layer, e embeddings, t traverser, j junk, n nil,
// b and x embedded models
var nodeSlots = []struct{ name, kinds string }{
	{"A", "p"}, {"B", "p"}, {"Model", "ml"}, {"Any", "pmvlej"}, {"Ptr", "m"}, {"Val", "v"},
	{"Ps", "ppn"}, {"Ms", "mln"}, {"Anys", "pmvlejnt"}, {"Ptrs", "mn"}, {"Vals", "v"},
	{"PArr", "p"}, {"MArr", "ml"}, {"AArr", "pmvljt"}, {"PS", "pn"}, {"PI", "pn"}, {"MS", "mln"}, {"MI", "mln"}, {"AS", "pmvljnt"},
	{"Sync", "pmvljnt"}, {"Emb", "e"}, {"Shared", "e"}, {"List", "l"}, {"Trav", "t"}, {"Trs", "t"},
	{"Base", "b"}, {"Mixin", "x"},
}

type travItem struct {
	Slot  int
	Kind  int
	Share int        // >0: reuse an earlier parameter or model
	Sub   []travItem `json:",omitempty"`
}

type travCase struct {
	Items []travItem
	Grads []int // which parameters carry gradients (by creation index, cyclic)
	Empty []int // which parameters are empty matrices
	Stop  int   // cancel the stream after this many parameters
}

func genTravItems(t *rapid.T, depth, hi int) []travItem {
	n := gen.U(t, hi+1)
	var o []travItem
	for i := 0; i < n; i++ {
		it := travItem{Slot: gen.U(t, len(nodeSlots)), Kind: gen.U(t, 8)}
		if gen.Chance(t, 25) {
			it.Share = gen.UInt(t, 1, 6)
		}
		k := nodeSlots[it.Slot].kinds[it.Kind%len(nodeSlots[it.Slot].kinds)]
		if k == 'm' && depth > 0 {
			it.Sub = genTravItems(t, depth-1, hi)
		}
		o = append(o, it)
	}
	return o
}

func genTrav(t *rapid.T) travCase {
	c := travCase{Items: genTravItems(t, 3, 9)}
	if gen.Chance(t, 3) { // long containers
		for k := gen.UInt(t, 1, 3); k > 0; k-- {
			s := gen.U(t, len(nodeSlots))
			for n := gen.UInt(t, 9, gen.Pick(t, 20, 40, 150)); n > 0; n-- {
				c.Items = append(c.Items, travItem{Slot: s, Kind: gen.U(t, 8)})
			}
		}
	}
	c.Grads = gen.List(t, 1, 6, func(t *rapid.T) int { return gen.Int(t, 0, 1) })
	c.Empty = []int{0}
	if gen.Chance(t, 15) {
		c.Empty = gen.List(t, 1, 5, func(t *rapid.T) int { return gen.Pick(t, 0, 0, 1, 2) })
	}
	c.Stop = gen.U(t, 12)
	return c
}

// travBuild constructs the model and the expected visits.
type travBuild struct {
	c      travCase
	params []*nn.Param
	models []nn.Model // finished *Node models, in creation order
	visits map[nn.Model]travVisit
	tables []table
}

type travVisit struct {
	all, strict []*nn.Param
	models      []any // *Node, *linear.Model, *embedding.Model or nil for values
}

func (b *travBuild) param() *nn.Param {
	p := nn.NewParam(mat.NewDense[float64](mat.WithShape(1, 2), mat.WithBacking([]float64{float64(len(b.params)), 1})))
	empty := 0
	if len(b.c.Empty) > 0 {
		empty = b.c.Empty[len(b.params)%len(b.c.Empty)]
	}
	if empty > 0 {
		p = nn.NewParam(mat.NewDense[float64](mat.WithShape(empty-1, 0)))
	}
	if empty > 0 && b.c.Grads[len(b.params)%len(b.c.Grads)] > 0 {
		p.AccGrad(mat.NewDense[float64](mat.WithShape(empty-1, 0)))
	} else if b.c.Grads[len(b.params)%len(b.c.Grads)] > 0 {
		p.AccGrad(mat.NewDense[float64](mat.WithShape(1, 2), mat.WithBacking([]float64{3, float64(len(b.params))})))
	}
	b.params = append(b.params, p)
	return p
}

func (b *travBuild) node(items []travItem) *Node {
	n := &Node{Note: "n", Nums: []float64{1}, hidden: nn.NewParam(mat.Scalar(7.0)), Buf: nn.Buf(mat.Scalar(1.0)),
		PS: map[string]*nn.Param{}, PI: map[int]*nn.Param{}, MS: map[string]nn.Model{}, MI: map[int]nn.Model{}, AS: map[string]any{}, Sync: &sync.Map{},
		Shared: embedding.Shared{Model: embedding.New[float64](2, 2)}}
	var v travVisit
	// single-valued slots keep the first item
	used := map[string]int{}
	for i, it := range items {
		s := nodeSlots[it.Slot]
		u := used[s.name]
		switch s.name {
		case "A", "B", "Model", "Any", "Ptr", "Val", "Emb", "Shared", "Trav", "Base", "Mixin":
			if u > 0 {
				continue
			}
		case "PArr", "MArr", "AArr":
			if u > 2 {
				continue
			}
		}
		used[s.name]++
		var item any
		var iv travVisit
		k := s.kinds[it.Kind%len(s.kinds)]
		switch k {
		case 'p':
			p := (*nn.Param)(nil)
			if it.Share > 0 && len(b.params) > 0 {
				p = b.params[it.Share%len(b.params)]
			} else {
				p = b.param()
			}
			item = p
			iv.all, iv.strict = []*nn.Param{p}, []*nn.Param{p}
		case 'm':
			var m *Node
			if it.Share > 0 && len(b.models) > 0 {
				m = b.models[it.Share%len(b.models)].(*Node)
			} else {
				m = b.node(it.Sub)
			}
			item = m
			iv.all = b.visits[m].all
			iv.models = append([]any{m}, b.visits[m].models...)
		case 'v':
			l := Leaf{W: b.param()}
			item = l
			iv.all = []*nn.Param{l.W}
			iv.models = []any{nil}
		case 'b':
			l := linear.New[float64](1, 1)
			w := b.param()
			l.W, l.B = b.param(), b.param()
			e := &Base{BaseW: w, BaseL: l}
			item = e
			iv.all = []*nn.Param{w, l.W, l.B}
			iv.models = []any{nil, l}
		case 'x':
			e := Mixin{MixW: b.param()}
			item = e
			iv.all = []*nn.Param{e.MixW}
			iv.models = []any{nil}
		case 'l':
			l := linear.New[float64](1, 1)
			l.W, l.B = b.param(), b.param()
			item = l
			iv.all = []*nn.Param{l.W, l.B}
			iv.models = []any{l}
		case 'e':
			e := embedding.New[float64](3, 2)
			for i := range e.Weights {
				if b.c.Grads[(len(b.params)+i)%len(b.c.Grads)] > 0 {
					w, _ := e.Embedding(i)
					w.AccGrad(mat.NewDense[float64](mat.WithShape(2, 1), mat.WithBacking([]float64{float64(i), 2})))
					iv.all = append(iv.all, e.Weights[i])
					iv.strict = append(iv.strict, e.Weights[i])
				}
			}
			item = e
			iv.models = []any{e}
			b.tables = append(b.tables, table{e, iv.all})
		case 't':
			tr := traverser{ps: []*nn.Param{b.param(), b.param()}}
			item = tr
			iv.all, iv.strict = tr.ps, tr.ps
		case 'j':
			item = []any{"text", 3.5, struct{ X int }{1}, []int{1}, &struct{ Y string }{"y"}, fmt.Errorf("e"), true, new(int)}[i%8]
		case 'n':
			if s.name == "Ptrs" {
				item = (*Node)(nil)
			}
			if i%2 == 1 && (s.name == "Anys" || s.name == "AS") {
				item = (*nn.Param)(nil)
			}
		}
		key := fmt.Sprintf("k%d", i)
		asM, _ := item.(nn.Model)
		asP, _ := item.(*nn.Param)
		switch s.name {
		case "A":
			n.A = asP
		case "B":
			n.B = asP
		case "Model":
			n.Model = asM
		case "Any":
			n.Any = item
		case "Ptr":
			n.Ptr = item.(*Node)
		case "Val":
			n.Val = item.(Leaf)
		case "Ps":
			n.Ps = append(n.Ps, asP)
		case "Ms":
			n.Ms = append(n.Ms, asM)
		case "Anys":
			n.Anys = append(n.Anys, item)
		case "Ptrs":
			n.Ptrs = append(n.Ptrs, item.(*Node))
		case "Vals":
			n.Vals = append(n.Vals, item.(Leaf))
		case "PArr":
			n.PArr[2-u] = asP // from the end, so that nil elements come first
		case "MArr":
			n.MArr[2-u] = asM
		case "AArr":
			n.AArr[2-u] = item
		case "PS":
			n.PS[key] = asP
		case "PI":
			n.PI[i] = asP
		case "MS":
			n.MS[key] = asM
		case "MI":
			n.MI[i] = asM
		case "AS":
			n.AS[key] = item
		case "Sync":
			if i%2 == 0 {
				n.Sync.Store(key, item)
			} else {
				n.Sync.Store(i, item)
			}
		case "Base":
			n.Base = item.(*Base)
		case "Mixin":
			n.Mixin = item.(Mixin)
		case "Emb":
			n.Emb = item.(*embedding.Model)
		case "Shared":
			n.Shared.Model = item.(*embedding.Model)
			iv.models = []any{nil}
		case "List":
			n.List = append(n.List, item.(nn.StandardModel))
		case "Trav":
			n.Trav = item.(traverser)
		case "Trs":
			n.Trs = append(n.Trs, item.(traverser))
		}
		v.all = append(v.all, iv.all...)
		v.strict = append(v.strict, iv.strict...)
		v.models = append(v.models, iv.models...)
	}
	if used["Shared"] == 0 {
		v.models = append(v.models, nil)
	}
	if used["Mixin"] == 0 {
		v.models = append(v.models, nil)
	}
	if used["Val"] == 0 {
		v.models = append(v.models, nil)
	}
	b.models = append(b.models, n)
	b.visits[n] = v
	return n
}

func countOf[K comparable](xs []K) map[K]int {
	o := map[K]int{}
	for _, x := range xs {
		o[x]++
	}
	return o
}

func sameCounts[K comparable](what string, got, want map[K]int) error {
	for k, n := range want {
		if got[k] != n {
			return errf("%s: one element is visited %d times, want %d (of %d different)", what, got[k], n, len(want))
		}
	}
	for k, n := range got {
		if want[k] == 0 {
			return errf("%s: an element that does not belong to the model is visited %d times", what, n)
		}
	}
	return nil
}

func evalTrav(ctx *eng.Ctx, c travCase) error {
	b := &travBuild{c: c, visits: map[nn.Model]travVisit{}}
	m := b.node(c.Items)
	if err := checkTraversal(ctx, m, b.visits[m].all, b.visits[m].strict, b.visits[m].models, c.Stop); err != nil {
		return err
	}
	for i, t := range b.tables[:min(2, len(b.tables))] {
		// a table of embeddings, which traverses itself, as the whole model
		ps := t.ps
		if c.Stop%2 == i { // the gradients it had are gone by now
			ps = nil
			if n := t.e.CountEmbedWithGrad(); n != 0 {
				return errf("%d embeddings with gradients after ZeroGrad of the model", n)
			}
		}
		if c.Stop%2 != i {
			for _, p := range ps {
				for k, w := range t.e.Weights {
					if w == p {
						emb, _ := t.e.Embedding(k)
						emb.AccGrad(mat.NewDense[float64](mat.WithShape(2, 1), mat.WithBacking([]float64{1, 2})))
					}
				}
			}
		}
		if err := checkTraversal(ctx, t.e, ps, ps, []any{}, c.Stop); err != nil {
			return errf("table of embeddings: %v", err)
		}
	}
	return nil
}

// table is a table of embeddings and its parameters with gradients.
type table struct {
	e  *embedding.Model
	ps []*nn.Param
}

// checkTraversal compares every model-wide operation with the expected visits.
func checkTraversal(ctx *eng.Ctx, m nn.Model, all, strict []*nn.Param, models []any, stop int) error {
	ctx.NTIf(len(all) > 1)
	var got []*nn.Param
	nn.ForEachParam(m, func(p *nn.Param) { got = append(got, p) })
	if err := sameCounts("ForEachParam", countOf(got), countOf(all)); err != nil {
		return err
	}
	if strict != nil {
		got = nil
		nn.ForEachParamStrict(m, func(p *nn.Param) { got = append(got, p) })
		if err := sameCounts("ForEachParamStrict", countOf(got), countOf(strict)); err != nil {
			return err
		}
	}
	if models != nil {
		var ms []any
		first := true
		var firstErr error
		nn.Apply(m, func(s nn.Model) {
			if first {
				first = false
				if s != m {
					firstErr = errf("Apply does not start with the model itself")
				}
				return
			}
			switch s.(type) {
			case *Node, *linear.Model, *embedding.Model:
				ms = append(ms, s)
			default:
				ms = append(ms, nil)
			}
		})
		if firstErr != nil {
			return firstErr
		}
		if first {
			return errf("Apply does not visit the model itself")
		}
		if err := sameCounts("Apply", countOf(ms), countOf(models)); err != nil {
			return err
		}
	}
	// the stream of parameters: each once
	once := countOf(all)
	for p := range once {
		once[p] = 1
	}
	stream := func(limit int) (ps []*nn.Param, closed bool) {
		cx, cancel := context.WithCancel(context.Background())
		defer cancel()
		ch := nn.Parameters(m)(cx)
		timeout := time.After(60 * time.Second)
		for {
			if len(ps) == limit {
				cancel()
			}
			select {
			case p, ok := <-ch:
				if !ok {
					return ps, true
				}
				ps = append(ps, p)
			case <-timeout:
				return ps, false
			}
		}
	}
	ps, closed := stream(-1)
	if !closed {
		return errf("Parameters: the channel is not closed after the last parameter")
	}
	if err := sameCounts("Parameters", countOf(ps), once); err != nil {
		return err
	}
	ps, closed = stream(stop)
	if !closed {
		return errf("Parameters: the channel is not closed after cancellation")
	}
	if len(ps) < min(stop, len(once)) {
		return errf("Parameters: %d parameters delivered before cancellation, want %d", len(ps), min(stop, len(once)))
	}
	for p, n := range countOf(ps) {
		if n != 1 || once[p] != 1 {
			return errf("Parameters: a parameter is sent %d times", n)
		}
	}
	// zeroing affects all parameters and nothing else
	outside := nn.NewParam(mat.Scalar(1.0))
	outside.AccGrad(mat.Scalar(2.0))
	sn := make(map[*nn.Param]snap)
	for _, p := range all {
		sn[p] = snapOf(p)
	}
	nn.ZeroGrad(m)
	for _, p := range all {
		if p.HasGrad() {
			return errf("ZeroGrad left a gradient")
		}
		if err := sn[p].same(p); err != nil {
			return errf("ZeroGrad: %v", err)
		}
	}
	if !outside.HasGrad() {
		return errf("ZeroGrad zeroed an unrelated parameter")
	}
	return nil
}

var travKinds = []string{"linear", "activation", "highway", "gmlpblock", "gmlp", "sgu", "mlpmixer", "sqrdist", "conv1x1", "conv1d", "conv2d", "srn", "gru", "lstm", "birnn", "bilstm", "bigru",
	"bibilstm", "selfattention", "multihead", "adanorm", "batchnorm", "fixnorm", "layernorm", "layernormsimple", "rmsnorm", "scalenorm", "crf", "slstm"}

type zooTravCase struct {
	Spec modelSpec
	DT   int
	Stop int
}

func init() {
	eng.Register("C11", "containers", "at least two parameters reachable", 30000, 500000, genTrav, evalTrav)
	eng.Register("C11", "layers", "at least two parameters reachable", 4000, 60000,
		func(t *rapid.T) zooTravCase {
			return zooTravCase{Spec: genSpec(t, gen.Pick(t, travKinds...), 0), DT: gen.DT(t), Stop: gen.U(t, 5)}
		},
		func(ctx *eng.Ctx, c zooTravCase) error {
			m := c.Spec.build(c.DT)
			ctx.Label("%s", c.Spec.Kind)
			var all []*nn.Param
			visitParams(m, func(_ string, p *nn.Param) { all = append(all, p) })
			for i, p := range all {
				s := p.Shape()
				if p.RequiresGrad() {
					p.AccGrad(mk(c.DT, hmat(c.DT, s[0], s[1], 5, i, 1), false))
				}
			}
			return checkTraversal(ctx, m, all, nil, nil, c.Stop)
		})
}
