// Package log15 stands in for the logging library: logging is not the subject
// of any property, so every function has an empty body.
package log15

type Lvl int

const (
	LvlCrit Lvl = iota
	LvlError
	LvlWarn
	LvlInfo
	LvlDebug
)

type Ctx map[string]interface{}
type Record struct {
	Lvl Lvl
	Msg string
	Ctx []interface{}
}
type Handler interface{ Log(r *Record) error }
type Lazy struct{ Fn interface{} }
type Logger interface {
	New(ctx ...interface{}) Logger
	GetHandler() Handler
	SetHandler(h Handler)
	Debug(msg string, ctx ...interface{})
	Info(msg string, ctx ...interface{})
	Warn(msg string, ctx ...interface{})
	Error(msg string, ctx ...interface{})
	Crit(msg string, ctx ...interface{})
}
type logger struct{}

func (logger) New(ctx ...interface{}) Logger         { return logger{} }
func (logger) GetHandler() Handler                   { return nil }
func (logger) SetHandler(h Handler)                  {}
func (logger) Debug(msg string, ctx ...interface{})  {}
func (logger) Info(msg string, ctx ...interface{})   {}
func (logger) Warn(msg string, ctx ...interface{})   {}
func (logger) Error(msg string, ctx ...interface{})  {}
func (logger) Crit(msg string, ctx ...interface{})   {}
func New(ctx ...interface{}) Logger                  { return logger{} }
func Root() Logger                                   { return logger{} }
func Debug(msg string, ctx ...interface{})           {}
func Info(msg string, ctx ...interface{})            {}
func Warn(msg string, ctx ...interface{})            {}
func Error(msg string, ctx ...interface{})           {}
func Crit(msg string, ctx ...interface{})            {}
