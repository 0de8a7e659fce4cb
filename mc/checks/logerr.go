package checks

import (
	stderrors "errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"

	"verifmc/engine"
)

// ---- C27 ----

// capture returns what f prints on standard output and standard error.
func capture(c *engine.C, f func()) string {
	file, _ := c.Data["capture"].(*os.File)
	if file == nil {
		var err error
		file, err = os.CreateTemp("", "mc-log-")
		if err != nil {
			panic(err)
		}
		os.Remove(file.Name())
		c.Data["capture"] = file
	}
	file.Truncate(0)
	file.Seek(0, io.SeekStart)
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = file, file
	defer func() { os.Stdout, os.Stderr = so, se }()
	f()
	file.Seek(0, io.SeekStart)
	b, _ := io.ReadAll(file)
	return string(b)
}

type logOp struct {
	name  string
	level logger.LogLevel
	call  func(l logger.Logger)
	text  string // exact, or for errors contained
	err   bool
}

func logOps() []logOp {
	e := errors.New("cause %d", 42)
	return []logOp{
		{"Error", logger.ErrorLevel, func(l logger.Logger) { l.Error(e) }, "cause 42", true},
		{"Warn", logger.WarnLevel, func(l logger.Logger) { l.Warn("w %d %s\n", 1, "x") }, "w 1 x\n", false},
		{"Warn plain", logger.WarnLevel, func(l logger.Logger) { l.Warn("plain\n") }, "plain\n", false},
		{"Warn percent", logger.WarnLevel, func(l logger.Logger) { l.Warn("50%% ") }, "50% ", false},
		{"Info percent", logger.InfoLevel, func(l logger.Logger) { l.Info("100%%\n") }, "100%\n", false},
		{"Debug percent", logger.DebugLevel, func(l logger.Logger) { l.Debug("%%d") }, "%d", false},
		{"Info", logger.InfoLevel, func(l logger.Logger) { l.Info("i %v|", []int{1}) }, "i [1]|", false},
		{"Debug", logger.DebugLevel, func(l logger.Logger) { l.Debug("d %q %x\n", "a", 255) }, "d \"a\" ff\n", false},
		{"Debugln", logger.DebugLevel, func(l logger.Logger) { l.Debugln("a", 1, nil) }, "a 1 <nil>\n", false},
		{"Debugln none", logger.DebugLevel, func(l logger.Logger) { l.Debugln() }, "\n", false},
	}
}

func init() {
	engine.Register("C27", nil, func(t engine.Tier) []*engine.Scenario {
		levels := []logger.LogLevel{logger.ErrorLevel, logger.WarnLevel, logger.InfoLevel, logger.DebugLevel}
		ops := logOps()
		depth := t.Pick(4, 5)
		return []*engine.Scenario{{Name: "sequences", What: fmt.Sprintf("every sequence of %d calls (messages of every severity, level changes) on a console logger of every initial level, a second one and a null logger next to it", depth), Run: func(c *engine.C) {
			level := [2]logger.LogLevel{choose(c, levels), logger.WarnLevel}
			cons := [2]logger.Logger{logger.NewConsoleLogger(level[0]), logger.NewConsoleLogger(level[1])}
			null := logger.NewNullLogger()
			nullLevel := null.GetLogLevel()
			for i := 0; i < depth; i++ {
				k := c.Choose(len(ops) + len(levels))
				if k >= len(ops) {
					l := levels[k-len(ops)]
					which := c.Choose(2)
					if out := capture(c, func() { cons[which].SetLogLevel(l); null.SetLogLevel(l) }); out != "" {
						c.Failf("SetLogLevel printed %q", out)
					}
					level[which], nullLevel = l, l
				} else {
					o := ops[k]
					for w := 0; w < 2; w++ {
						out := capture(c, func() { o.call(cons[w]) })
						on := level[w] >= o.level
						c.Logf("%s at level %d: %q", o.name, level[w], out)
						c.Step()
						switch {
						case !on && out != "":
							c.Failf("%s printed %q at level %d", o.name, out, level[w])
						case on && o.err && (!strings.Contains(out, o.text) || strings.Count(out, "\n") != 1 || !strings.HasSuffix(out, "\n")):
							c.Failf("%s printed %q at level %d", o.name, out, level[w])
						case on && !o.err && out != o.text:
							c.Failf("%s printed %q instead of %q at level %d", o.name, out, o.text, level[w])
						}
						c.StateString(fmt.Sprint(level[w], out))
					}
					if out := capture(c, func() { o.call(null) }); out != "" {
						c.Failf("the null logger printed %q for %s", out, o.name)
					}
				}
				for w := 0; w < 2; w++ {
					if cons[w].GetLogLevel() != level[w] {
						c.Failf("level %d reported as %d", level[w], cons[w].GetLogLevel())
					}
				}
				if null.GetLogLevel() != nullLevel {
					c.Failf("null logger reports level %d instead of %d", null.GetLogLevel(), nullLevel)
				}
			}
		}}, {Name: "order", N: 1, What: "the levels are ordered by severity", At: func(c *engine.C, i uint64) {
			for i := 0; i+1 < len(levels); i++ {
				if levels[i] >= levels[i+1] {
					c.Failf("level %d is not below level %d", levels[i], levels[i+1])
				}
				c.Step()
				c.State(uint64(i))
			}
		}}}
	})
}

// ---- C28 ----

// here is the location of its caller, as the trail prints it.
func here() string {
	_, file, line, _ := runtime.Caller(1)
	return fmt.Sprintf("%s:%d", filepath.Base(file), line)
}

var cause1 = stderrors.New("first cause")
var cause2 = fmt.Errorf("second: %w", io.ErrUnexpectedEOF)

// every function returns the error and the location it must carry
var creators = []func() (errors.Error, string, string, error){
	func() (errors.Error, string, string, error) {
		return errors.NewError(cause1), here(), "first cause", cause1
	},
	func() (errors.Error, string, string, error) {
		return errors.NewError(cause2), here(), "second: unexpected EOF", cause2
	},
	func() (errors.Error, string, string, error) {
		return errors.New("plain"), here(), "plain", nil
	},
	func() (errors.Error, string, string, error) {
		return errors.New("n=%d s=%q", 7, "x"), here(), "n=7 s=\"x\"", nil
	},
	func() (errors.Error, string, string, error) {
		return errors.New("why: %w", cause1), here(), "why: first cause", cause1
	},
}

var updaters = []func(e errors.Error) (errors.Error, string){
	func(e errors.Error) (errors.Error, string) { return errors.Update(e), here() },
	func(e errors.Error) (errors.Error, string) {
		r := errors.Update(e)
		_, file, line, _ := runtime.Caller(0)
		return r, fmt.Sprintf("%s:%d", filepath.Base(file), line-1)
	},
	func(e errors.Error) (errors.Error, string) {
		var s string
		var r errors.Error
		func() { r, s = errors.Update(e), here() }()
		return r, s
	},
}

func init() {
	engine.Register("C28", nil, func(t engine.Tier) []*engine.Scenario {
		type tracked struct {
			e     errors.Error
			text  string
			cause error
			trail []string
		}
		depth := t.Pick(6, 7)
		check := func(c *engine.C, x *tracked) {
			if x.e.Message == nil || x.e.Message.Error() != x.text {
				c.Failf("text %v instead of %q", x.e.Message, x.text)
			}
			if x.cause != nil && !stderrors.Is(x.e.Message, x.cause) {
				c.Failf("cause of %q lost", x.text)
			}
			if len(x.e.Stack) != len(x.trail) {
				c.Failf("trail %v instead of %v", x.e.Stack, x.trail)
			}
			for i := range x.trail {
				if !strings.HasSuffix(x.e.Stack[i], "/"+x.trail[i]) {
					c.Failf("trail %v instead of %v", x.e.Stack, x.trail)
				}
			}
		}
		return []*engine.Scenario{{Name: "sequences", What: fmt.Sprintf("every sequence of %d creations and propagations over up to three errors", depth), Run: func(c *engine.C) {
			var live []*tracked
			for i := 0; i < depth; i++ {
				n := len(live) * len(updaters)
				k := len(creators)
				if len(live) == 3 {
					k = 0
				}
				j := c.Choose(n + k)
				if j < n {
					x := live[j/len(updaters)]
					r, where := updaters[j%len(updaters)](x.e)
					x.trail = append(x.trail, where)
					if r != x.e {
						c.Failf("propagation returned another error")
					}
				} else {
					e, where, text, cause := creators[j-n]()
					if e == nil {
						c.Failf("no error created for %q", text)
					}
					live = append(live, &tracked{e, text, cause, []string{where}})
				}
				c.Step()
				s := ""
				for _, x := range live {
					check(c, x)
					s += fmt.Sprint(x.text, x.trail)
				}
				c.StateString(s)
			}
		}}, {Name: "nil", N: 1, What: "wrapping and propagating nothing", At: func(c *engine.C, i uint64) {
			if errors.NewError(nil) != nil {
				c.Failf("NewError(nil) is an error")
			}
			if errors.Update(nil) != nil {
				c.Failf("Update(nil) is an error")
			}
			if errors.Update(errors.NewError(nil)) != nil {
				c.Failf("Update(NewError(nil)) is an error")
			}
			c.Steps(3)
			c.State(1)
		}}, {Name: "long", N: 200, What: "trails of 1..200 locations", At: func(c *engine.C, i uint64) {
			e, where, text, cause := creators[int(i)%len(creators)]()
			x := &tracked{e, text, cause, []string{where}}
			for k := uint64(0); k < i; k++ {
				r, where := updaters[k%3](x.e)
				x.e = r
				x.trail = append(x.trail, where)
				c.Step()
			}
			check(c, x)
			c.State(i)
		}}}
	})
}
