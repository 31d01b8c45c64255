// Package logging is an offline stand-in for github.com/amarin/logging v0.1.0, which cannot be fetched here.
// It has the API surface of the original's Logger and initialisation functions, including the original's rule that
// loggers can only be made after Init. Records go to stderr when GOMORPHY_STUB_LOG is set and are dropped otherwise.
package logging

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"sync"
)

// Error identifies logging errors.
var Error = errors.New("logging")

// Level is a logging level.
type Level int

const (
	LevelTrace   Level = 0
	LevelDebug   Level = 1
	LevelInfo    Level = 2
	LevelWarn    Level = 3
	LevelError   Level = 4
	LevelPanic   Level = 5
	LevelFatal   Level = 6
	DefaultLevel       = LevelInfo
)

// IsEnabledForLevel tells if messages of the level given are produced at this level.
func (l Level) IsEnabledForLevel(level Level) bool { return level >= l }

// String implements fmt.Stringer.
func (l Level) String() string {
	names := []string{"trace", "debug", "info", "warn", "error", "panic", "fatal"}
	if l < 0 || int(l) >= len(names) {
		return fmt.Sprintf("level%d", int(l))
	}
	return names[l]
}

// Keys is a set of logging keys.
type Keys map[string]any

// Config holds configuration.
type Config struct{ Level Level }

// Option changes configuration.
type Option func(c *Config)

// WithLevel adds level to configuration.
func WithLevel(level Level) Option { return func(c *Config) { c.Level = level } }

// Logger is the logging interface.
type Logger interface {
	Level() Level
	IsEnabledForLevel(level Level) bool
	Trace(args ...interface{})
	Tracef(fmt string, args ...interface{})
	Debug(args ...interface{})
	Debugf(fmt string, args ...interface{})
	Info(args ...interface{})
	Infof(fmt string, args ...interface{})
	Warn(args ...interface{})
	Warnf(fmt string, args ...interface{})
	Error(args ...interface{})
	Errorf(fmt string, args ...interface{})
	Fatal(args ...interface{})
	Fatalf(fmt string, args ...interface{})
	WithKeys(fields Keys) Logger
	WithKey(key string, value any) Logger
	WithError(err error) Logger
	WithLevel(level Level) Logger
}

var (
	mu       sync.Mutex
	initDone bool
	enabled  = os.Getenv("GOMORPHY_STUB_LOG") != ""
)

// Init initialises logging.
func Init(opts ...Option) error {
	mu.Lock()
	defer mu.Unlock()
	cfg := &Config{Level: DefaultLevel}
	for _, o := range opts {
		o(cfg)
	}
	initDone = true
	return nil
}

// MustInit is Init that panics.
func MustInit(opts ...Option) {
	if err := Init(opts...); err != nil {
		panic(err)
	}
}

type logger struct {
	name  string
	level Level
}

// NewLogger makes a logger.
func NewLogger(levels ...Level) Logger { return NewNamedLogger("", levels...) }

// NewNamedLogger makes a named logger. Panics before Init, as the original does.
func NewNamedLogger(name string, levels ...Level) Logger {
	mu.Lock()
	defer mu.Unlock()
	if !initDone {
		panic(fmt.Errorf("%w: set backend first", Error))
	}
	level := DefaultLevel
	if len(levels) > 0 {
		level = levels[0]
	}
	return logger{name: name, level: level}
}

func (l logger) out(level Level, f func() string) {
	if !enabled || !l.level.IsEnabledForLevel(level) {
		return
	}
	line := strings.ToUpper(level.String()) + "\t" + l.name + "\t" + f() + "\n"
	mu.Lock()
	defer mu.Unlock()
	_, _ = os.Stderr.WriteString(line)
}

func (l logger) s(level Level, args []interface{}) {
	l.out(level, func() string { return fmt.Sprint(args...) })
}

func (l logger) f(level Level, format string, args []interface{}) {
	l.out(level, func() string { return fmt.Sprintf(format, args...) })
}

func (l logger) Level() Level                       { return l.level }
func (l logger) IsEnabledForLevel(level Level) bool { return l.level.IsEnabledForLevel(level) }
func (l logger) Trace(a ...interface{})             { l.s(LevelTrace, a) }
func (l logger) Tracef(f string, a ...interface{})  { l.f(LevelTrace, f, a) }
func (l logger) Debug(a ...interface{})             { l.s(LevelDebug, a) }
func (l logger) Debugf(f string, a ...interface{})  { l.f(LevelDebug, f, a) }
func (l logger) Info(a ...interface{})              { l.s(LevelInfo, a) }
func (l logger) Infof(f string, a ...interface{})   { l.f(LevelInfo, f, a) }
func (l logger) Warn(a ...interface{})              { l.s(LevelWarn, a) }
func (l logger) Warnf(f string, a ...interface{})   { l.f(LevelWarn, f, a) }
func (l logger) Error(a ...interface{})             { l.s(LevelError, a) }
func (l logger) Errorf(f string, a ...interface{})  { l.f(LevelError, f, a) }
func (l logger) Fatal(a ...interface{})             { l.s(LevelFatal, a); os.Exit(1) }
func (l logger) Fatalf(f string, a ...interface{})  { l.f(LevelFatal, f, a); os.Exit(1) }
func (l logger) WithKeys(Keys) Logger               { return l }
func (l logger) WithKey(string, any) Logger         { return l }
func (l logger) WithError(error) Logger             { return l }
func (l logger) WithLevel(level Level) Logger       { l.level = level; return l }
