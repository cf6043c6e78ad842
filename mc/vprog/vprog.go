// Package vprog replaces what the main packages of the programs use of flag,
// log and toml.  Every package has its own set of command line flags; they are
// parsed from vos.Args, the arguments of the simulated process.
package vprog

import (
	"flag"
	"io"
	"runtime"
	"strings"
	"time"

	"github.com/BurntSushi/toml"
	"github.com/cybozu-go/log"
	"vmc/vos"
)

var sets = map[string]*flag.FlagSet{}

// caller is the flag set of the package that called the caller.
func caller() *flag.FlagSet {
	pc, _, _, _ := runtime.Caller(2)
	n := runtime.FuncForPC(pc).Name()
	i := strings.LastIndex(n, "/") + 1
	if j := strings.Index(n[i:], "."); j >= 0 {
		n = n[:i+j]
	}
	s := sets[n]
	if s == nil {
		s = flag.NewFlagSet(n, flag.ContinueOnError)
		s.SetOutput(io.Discard)
		s.Usage = func() {}
		sets[n] = s
	}
	return s
}

// Usage replaces flag.Usage.
var Usage = func() {}

// Parse replaces flag.Parse.
func Parse() {
	s := caller()
	s.VisitAll(func(f *flag.Flag) { f.Value.Set(f.DefValue) })
	switch err := s.Parse(vos.Args[1:]); err {
	case nil:
	case flag.ErrHelp:
		Usage()
		vos.Exit(0)
	default:
		Usage()
		vos.Exit(2)
	}
}

// ErrorExit replaces log.ErrorExit.
func ErrorExit(err error) {
	log.Error(err.Error(), nil)
	vos.Exit(1)
}

// DecodeFile replaces toml.DecodeFile.
func DecodeFile(p string, v interface{}) (toml.MetaData, error) {
	b, err := vos.ReadFile(p)
	if err != nil {
		return toml.MetaData{}, err
	}
	return toml.Decode(string(b), v)
}

// Start prepares the command line of a program that is going to be run.
func Start(args ...string) { vos.Args = args }

// End resets what the programs set in libraries.
func End() {
	log.DefaultLogger().SetThreshold(log.LvCritical)
	log.DefaultLogger().SetOutput(io.Discard)
	log.DefaultLogger().SetFormatter(log.PlainFormat{})
}

// Parsed replaces flag.Parsed.
func Parsed() bool { return caller().Parsed() }

// Args replaces flag.Args.
func Args() []string { return caller().Args() }

// Arg replaces flag.Arg.
func Arg(i int) string { return caller().Arg(i) }

// NArg replaces flag.NArg.
func NArg() int { return caller().NArg() }

// NFlag replaces flag.NFlag.
func NFlag() int { return caller().NFlag() }

// Visit replaces flag.Visit.
func Visit(f func(*flag.Flag)) { caller().Visit(f) }

// VisitAll replaces flag.VisitAll.
func VisitAll(f func(*flag.Flag)) { caller().VisitAll(f) }

// Lookup replaces flag.Lookup.
func Lookup(n string) *flag.Flag { return caller().Lookup(n) }

// Set replaces flag.Set.
func Set(n, v string) error { return caller().Set(n, v) }

// PrintDefaults replaces flag.PrintDefaults.
func PrintDefaults() {}

// Func replaces flag.Func.
func Func(n, u string, f func(string) error) { caller().Func(n, u, f) }

// Var replaces flag.Var.
func Var(v flag.Value, n, u string) { caller().Var(v, n, u) }

// String replaces flag.String.
func String(n string, d string, u string) *string { return caller().String(n, d, u) }

// StringVar replaces flag.StringVar.
func StringVar(p *string, n string, d string, u string) { caller().StringVar(p, n, d, u) }

// Bool replaces flag.Bool.
func Bool(n string, d bool, u string) *bool { return caller().Bool(n, d, u) }

// BoolVar replaces flag.BoolVar.
func BoolVar(p *bool, n string, d bool, u string) { caller().BoolVar(p, n, d, u) }

// Int replaces flag.Int.
func Int(n string, d int, u string) *int { return caller().Int(n, d, u) }

// IntVar replaces flag.IntVar.
func IntVar(p *int, n string, d int, u string) { caller().IntVar(p, n, d, u) }

// Int64 replaces flag.Int64.
func Int64(n string, d int64, u string) *int64 { return caller().Int64(n, d, u) }

// Int64Var replaces flag.Int64Var.
func Int64Var(p *int64, n string, d int64, u string) { caller().Int64Var(p, n, d, u) }

// Uint replaces flag.Uint.
func Uint(n string, d uint, u string) *uint { return caller().Uint(n, d, u) }

// UintVar replaces flag.UintVar.
func UintVar(p *uint, n string, d uint, u string) { caller().UintVar(p, n, d, u) }

// Uint64 replaces flag.Uint64.
func Uint64(n string, d uint64, u string) *uint64 { return caller().Uint64(n, d, u) }

// Uint64Var replaces flag.Uint64Var.
func Uint64Var(p *uint64, n string, d uint64, u string) { caller().Uint64Var(p, n, d, u) }

// Float64 replaces flag.Float64.
func Float64(n string, d float64, u string) *float64 { return caller().Float64(n, d, u) }

// Float64Var replaces flag.Float64Var.
func Float64Var(p *float64, n string, d float64, u string) { caller().Float64Var(p, n, d, u) }

// Duration replaces flag.Duration.
func Duration(n string, d time.Duration, u string) *time.Duration { return caller().Duration(n, d, u) }

// DurationVar replaces flag.DurationVar.
func DurationVar(p *time.Duration, n string, d time.Duration, u string) { caller().DurationVar(p, n, d, u) }
