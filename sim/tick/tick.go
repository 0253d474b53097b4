//go:build go1.21

// Package tick is what the instrumented copy of the repository calls at every
// function entry, loop iteration and branch. Outside a simulated task it does
// nothing. Inside one it counts steps and call depth (so that endless loops and
// recursion are cut off after a fixed number of steps, not of seconds), records
// which branches ran, and offers the scheduler a point to switch tasks.
package tick

// MaxPoints bounds the number of instrumented points.
const MaxPoints = 1 << 14

// Ctx is the step state of one simulated task.
type Ctx struct {
	Steps    int64
	Budget   int64
	Depth    int
	MaxDepth int
	PeakDeep int
	YieldIn  int64 // steps until the next Yield call; <0: never
	Yield    func(c *Ctx)
	Over     func(c *Ctx, why string)
	Hit      []uint32 // per-point hit counts, MaxPoints long
}

// Cur is the running task, nil outside the simulation.
var Cur *Ctx

// Multi is set once the program itself has started goroutines (or is stuck in
// something only the Go runtime knows about): every point then asks Slow first,
// which holds goroutines whose process is not the running one, and switches between
// those of one process. false: not a goroutine of the simulation.
var (
	Multi bool
	Slow  func() bool
)

// T is called at every loop iteration and branch.
func T(id int) {
	if Multi && !Slow() {
		return
	}
	if c := Cur; c != nil {
		c.step(id)
	}
}

func (c *Ctx) step(id int) {
	c.Steps++
	if id < len(c.Hit) {
		c.Hit[id]++
	}
	if c.Steps > c.Budget {
		c.Over(c, "steps")
	}
	if c.YieldIn >= 0 {
		if c.YieldIn == 0 {
			c.Yield(c)
		} else {
			c.YieldIn--
		}
	}
}

// P is called before every other statement: only a point to switch tasks.
func P() {
	if Multi && !Slow() {
		return
	}
	if c := Cur; c != nil && c.YieldIn >= 0 {
		c.point()
	}
}

func (c *Ctx) point() {
	if c.YieldIn == 0 {
		c.Yield(c)
	} else {
		c.YieldIn--
	}
}

// F is called at every function entry.
func F(id int) {
	if Multi && !Slow() {
		return
	}
	if c := Cur; c != nil {
		c.Depth++
		if c.Depth > c.PeakDeep {
			c.PeakDeep = c.Depth
		}
		if c.Depth > c.MaxDepth {
			c.Over(c, "depth")
		}
		c.step(id)
	}
}

// L is called at every function exit.
func L() {
	if Multi && !Slow() {
		return
	}
	if c := Cur; c != nil {
		c.Depth--
	}
}

// Var is one registered package-level variable.
type Var struct {
	Name string
	Ptr  interface{}
}

// Vars lists every package-level variable of the repository.
var Vars []Var

// Reg registers a package-level variable.
func Reg(name string, ptr interface{}) { Vars = append(Vars, Var{name, ptr}) }
