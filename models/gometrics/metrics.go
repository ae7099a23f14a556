// Package metrics stands in for go-metrics: counters, gauges and timers are
// not the subject of any property, so updates have empty bodies.
package metrics

import "time"

type Registry interface {
	Each(func(string, interface{}))
	Get(string) interface{}
	Register(string, interface{}) error
	Unregister(string)
}
type Gauge interface {
	Snapshot() Gauge
	Update(int64)
	Value() int64
}
type Counter interface {
	Clear()
	Count() int64
	Dec(int64)
	Inc(int64)
	Snapshot() Counter
}
type Meter interface {
	Count() int64
	Mark(int64)
	Rate1() float64
	Rate5() float64
	Rate15() float64
	RateMean() float64
	Snapshot() Meter
	Stop()
}
type Timer interface {
	Count() int64
	Max() int64
	Mean() float64
	Min() int64
	Percentile(float64) float64
	Rate1() float64
	Rate5() float64
	Rate15() float64
	RateMean() float64
	Time(func())
	Update(time.Duration)
	UpdateSince(time.Time)
	Stop()
}
type Histogram interface {
	Clear()
	Count() int64
	Max() int64
	Mean() float64
	Min() int64
	Percentile(float64) float64
	Update(int64)
}
type Sample interface {
	Clear()
	Count() int64
	Update(int64)
}

type registry struct{}

func (registry) Each(func(string, interface{}))     {}
func (registry) Get(string) interface{}             { return nil }
func (registry) Register(string, interface{}) error { return nil }
func (registry) Unregister(string)                  {}

type gauge struct{}

func (gauge) Snapshot() Gauge { return gauge{} }
func (gauge) Update(int64)    {}
func (gauge) Value() int64    { return 0 }

type counter struct{}

func (counter) Clear()            {}
func (counter) Count() int64      { return 0 }
func (counter) Dec(int64)         {}
func (counter) Inc(int64)         {}
func (counter) Snapshot() Counter { return counter{} }

type meter struct{}

func (meter) Count() int64      { return 0 }
func (meter) Mark(int64)        {}
func (meter) Rate1() float64    { return 0 }
func (meter) Rate5() float64    { return 0 }
func (meter) Rate15() float64   { return 0 }
func (meter) RateMean() float64 { return 0 }
func (meter) Snapshot() Meter   { return meter{} }
func (meter) Stop()             {}

type timer struct{}

func (timer) Count() int64               { return 0 }
func (timer) Max() int64                 { return 0 }
func (timer) Mean() float64              { return 0 }
func (timer) Min() int64                 { return 0 }
func (timer) Percentile(float64) float64 { return 0 }
func (timer) Rate1() float64             { return 0 }
func (timer) Rate5() float64             { return 0 }
func (timer) Rate15() float64            { return 0 }
func (timer) RateMean() float64          { return 0 }
func (timer) Time(f func())              { f() }
func (timer) Update(time.Duration)       {}
func (timer) UpdateSince(time.Time)      {}
func (timer) Stop()                      {}

type histogram struct{}

func (histogram) Clear()                     {}
func (histogram) Count() int64               { return 0 }
func (histogram) Max() int64                 { return 0 }
func (histogram) Mean() float64              { return 0 }
func (histogram) Min() int64                 { return 0 }
func (histogram) Percentile(float64) float64 { return 0 }
func (histogram) Update(int64)               {}

type sample struct{}

func (sample) Clear()       {}
func (sample) Count() int64 { return 0 }
func (sample) Update(int64) {}

var DefaultRegistry Registry = registry{}

func NewRegistry() Registry                                            { return registry{} }
func NewPrefixedRegistry(prefix string) Registry                       { return registry{} }
func NewRegisteredGauge(name string, r Registry) Gauge                 { return gauge{} }
func NewRegisteredCounter(name string, r Registry) Counter             { return counter{} }
func NewRegisteredTimer(name string, r Registry) Timer                 { return timer{} }
func NewRegisteredMeter(name string, r Registry) Meter                 { return meter{} }
func NewRegisteredHistogram(name string, r Registry, s Sample) Histogram { return histogram{} }
func NewGauge() Gauge                                                  { return gauge{} }
func NewCounter() Counter                                              { return counter{} }
func NewTimer() Timer                                                  { return timer{} }
func NewMeter() Meter                                                  { return meter{} }
func NewHistogram(s Sample) Histogram                                  { return histogram{} }
func NewExpDecaySample(size int, alpha float64) Sample                 { return sample{} }
func NewUniformSample(size int) Sample                                 { return sample{} }
