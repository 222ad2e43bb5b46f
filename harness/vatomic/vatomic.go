// Package vatomic stands in for sync/atomic where a counterexample's schedule is followed.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/squizzling/osmindex/internal/zzverif/vg"
)

type Value struct{ v atomic.Value }

func (v *Value) Load() interface{}   { return v.v.Load() }
func (v *Value) Store(x interface{}) { v.v.Store(x) }
func (v *Value) CompareAndSwap(a, b interface{}) bool {
	return v.v.CompareAndSwap(a, b)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { vg.GateAt("atomic"); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	vg.GateAt("atomic")
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vg.GateAt("atomic")
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	vg.GateAt("atomic")
	return atomic.CompareAndSwapPointer(p, a, b)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { vg.GateAt("atomic"); return x.v.Load() }
func (x *Bool) Store(v bool)                  { vg.GateAt("atomic"); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { vg.GateAt("atomic"); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool { vg.GateAt("atomic"); return x.v.CompareAndSwap(a, b) }

func LoadInt32(p *int32) int32          { vg.GateAt("atomic"); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { vg.GateAt("atomic"); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, v int32) int32  { vg.GateAt("atomic"); return atomic.AddInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { vg.GateAt("atomic"); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	vg.GateAt("atomic")
	return atomic.CompareAndSwapInt32(p, a, b)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { vg.GateAt("atomic"); return x.v.Load() }
func (x *Int32) Store(v int32)                  { vg.GateAt("atomic"); x.v.Store(v) }
func (x *Int32) Add(v int32) int32              { vg.GateAt("atomic"); return x.v.Add(v) }
func (x *Int32) Swap(v int32) int32             { vg.GateAt("atomic"); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { vg.GateAt("atomic"); return x.v.CompareAndSwap(a, b) }

func LoadInt64(p *int64) int64          { vg.GateAt("atomic"); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { vg.GateAt("atomic"); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, v int64) int64  { vg.GateAt("atomic"); return atomic.AddInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { vg.GateAt("atomic"); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	vg.GateAt("atomic")
	return atomic.CompareAndSwapInt64(p, a, b)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { vg.GateAt("atomic"); return x.v.Load() }
func (x *Int64) Store(v int64)                  { vg.GateAt("atomic"); x.v.Store(v) }
func (x *Int64) Add(v int64) int64              { vg.GateAt("atomic"); return x.v.Add(v) }
func (x *Int64) Swap(v int64) int64             { vg.GateAt("atomic"); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { vg.GateAt("atomic"); return x.v.CompareAndSwap(a, b) }

func LoadUint32(p *uint32) uint32           { vg.GateAt("atomic"); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { vg.GateAt("atomic"); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { vg.GateAt("atomic"); return atomic.AddUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { vg.GateAt("atomic"); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	vg.GateAt("atomic")
	return atomic.CompareAndSwapUint32(p, a, b)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { vg.GateAt("atomic"); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { vg.GateAt("atomic"); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32  { vg.GateAt("atomic"); return x.v.Add(v) }
func (x *Uint32) Swap(v uint32) uint32 { vg.GateAt("atomic"); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool {
	vg.GateAt("atomic")
	return x.v.CompareAndSwap(a, b)
}

func LoadUint64(p *uint64) uint64           { vg.GateAt("atomic"); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { vg.GateAt("atomic"); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { vg.GateAt("atomic"); return atomic.AddUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { vg.GateAt("atomic"); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	vg.GateAt("atomic")
	return atomic.CompareAndSwapUint64(p, a, b)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { vg.GateAt("atomic"); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { vg.GateAt("atomic"); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64  { vg.GateAt("atomic"); return x.v.Add(v) }
func (x *Uint64) Swap(v uint64) uint64 { vg.GateAt("atomic"); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool {
	vg.GateAt("atomic")
	return x.v.CompareAndSwap(a, b)
}

func LoadUintptr(p *uintptr) uintptr            { vg.GateAt("atomic"); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { vg.GateAt("atomic"); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr  { vg.GateAt("atomic"); return atomic.AddUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { vg.GateAt("atomic"); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	vg.GateAt("atomic")
	return atomic.CompareAndSwapUintptr(p, a, b)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { vg.GateAt("atomic"); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { vg.GateAt("atomic"); x.v.Store(v) }
func (x *Uintptr) Add(v uintptr) uintptr  { vg.GateAt("atomic"); return x.v.Add(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { vg.GateAt("atomic"); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool {
	vg.GateAt("atomic")
	return x.v.CompareAndSwap(a, b)
}
