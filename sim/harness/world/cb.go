package world

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"reflect"
	"runtime"
	"strconv"
	"strings"

	php "github.com/trim21/go-phpserialize"
	"github.com/trim21/go-phpserialize/internal/verifsim/simrt"
)

// cbErr is the error, and the panic value, of an injected callback fault.
type cbErr struct{ n uint64 }

func (e *cbErr) Error() string { return fmt.Sprintf("injected fault %d", e.n) }

func current() *client {
	t := simrt.Cur()
	if t == nil {
		return nil
	}
	cl, _ := t.User.(*client)
	return cl
}

var constBytes = []byte("s:5:\"const\";")

// fault decides what happens in the k-th callback of the operation.
func (r *opRun) fault(k int) bool {
	cb := &r.op.CB
	return cb.Mode != "" && (cb.At == 0 || cb.At == k)
}

func (r *opRun) act(cl *client, k int, raw []byte) ([]byte, error, bool) {
	cb := &r.op.CB
	if !r.fault(k) {
		return nil, nil, false
	}
	cl.count("fault." + cb.Mode)
	switch cb.Mode {
	case "err":
		r.fired = true
		return nil, r.failure(cl, cb.V), true
	case "errbytes":
		r.fired = true
		return []byte("s:7:\"garbage\";"), r.failure(cl, cb.V), true
	case "panic":
		r.fired = true
		switch cb.V % 3 {
		case 1:
			panic("injected panic " + r.sentinel.Error())
		case 2:
			var none []int
			none[len(r.calls)+len(r.raws)] = 1
		}
		panic(r.sentinel)
	case "goexit":
		r.fired = true
		cl.goexit()
	case "stall":
		var before string
		if raw != nil {
			before = string(raw)
		}
		simrt.Stall(cb.N)
		if raw != nil && string(raw) != before {
			cl.violate("raw-mutated", fmt.Sprintf("bytes given to UnmarshalPHP changed during the call: %.80q became %.80q", before, raw))
		}
	case "reenter":
		nest, max := cb.Nest, 3
		if cb.N > 0 {
			nest, max = r.op, int(cb.N) // the operation itself, to that depth
		}
		if nest != nil && cl.depth < max {
			var before string
			if raw != nil {
				before = string(raw)
			}
			saved := cl.cur
			cl.depth++
			cl.one(nest)
			cl.depth--
			cl.cur = saved
			if raw != nil && string(raw) != before {
				cl.violate("raw-mutated", fmt.Sprintf("bytes given to UnmarshalPHP changed by a nested call: %.80q became %.80q", before, raw))
			}
		}
	}
	return nil, nil, false
}

// failure is the error a failing callback returns.
func (r *opRun) failure(cl *client, v int) error {
	r.fault0 = r.sentinel
	switch v % 15 {
	case 1:
		r.fault0 = fmt.Errorf("application: %w", r.sentinel)
	case 2: // what the library itself returned to the callback
		saved := cl.cur
		cl.cur = nil
		var err error
		switch r.sentinel.n % 9 {
		case 0:
			err = php.Unmarshal([]byte("s:1:\"x\";"), new(map[string]int))
		case 1:
			err = php.Unmarshal([]byte("i:1;"), new(string))
		case 2: // types which are not supported
			err = php.Unmarshal([]byte("a:0:{}"), new(struct{ F **int }))
		case 3:
			_, err = php.Marshal(map[float64]int{1: 1})
		case 4:
			err = php.Unmarshal([]byte("i:1;"), 5)
		case 5:
			err = php.Unmarshal([]byte("s:9:\"x\";"), new(any))
		case 6:
			l := []any{nil}
			l[0] = l
			_, err = php.Marshal(l)
		case 7:
			_, err = php.Marshal([]any{make(chan int)})
		default:
			_, err = php.Marshal(make(chan int))
		}
		cl.cur = saved
		if err == nil {
			cl.violate("should-fail", "a call which must fail succeeded")
			err = r.sentinel
		}
		r.fault0 = err
	case 3:
		r.fault0 = errors.Join(r.sentinel, errOther)
	case 4: // an error the library returned long ago, which others return as well
		r.fault0 = cl.w.libErr[r.sentinel.n%6]
	case 5:
		r.fault0 = io.EOF
	case 6:
		r.fault0 = fmt.Errorf("row %d: %w", r.sentinel.n%100, context.Canceled)
	case 7:
		r.fault0 = tempErr{r.sentinel.n}
	case 8:
		r.fault0 = io.ErrUnexpectedEOF
	case 9:
		r.fault0 = listErr{"a", fmt.Sprint(r.sentinel.n)}
	case 10:
		r.fault0 = (*nilErr)(nil)
	case 11:
		r.fault0 = everyErr{r.sentinel.n}
	case 12:
		r.fault0 = context.DeadlineExceeded
	case 13:
		r.fault0 = []error{errors.ErrUnsupported, fs.ErrNotExist, io.ErrShortBuffer, strconv.ErrRange, fs.ErrClosed, io.ErrNoProgress}[r.sentinel.n%6]
	case 14:
		r.fault0 = fmt.Errorf("%w and %w", io.EOF, tempErr{r.sentinel.n})
	}
	return r.fault0
}

// tempErr, listErr, nilErr, everyErr: errors of other sorts.
type tempErr struct{ n uint64 }

func (e tempErr) Error() string   { return fmt.Sprintf("temporary failure %d", e.n) }
func (e tempErr) Temporary() bool { return true }
func (e tempErr) Timeout() bool   { return true }

type listErr []string // cannot be compared

func (e listErr) Error() string { return "list of " + strings.Join(e, ",") }

type nilErr struct{}

func (*nilErr) Error() string { return "nil error" }

type everyErr struct{ n uint64 }

func (e everyErr) Error() string      { return fmt.Sprintf("every error %d", e.n) }
func (everyErr) Is(error) bool        { return true }
func (e everyErr) Unwrap() error      { return nil }
func (e everyErr) RetryAfter() string { return "0" }

// carries: err is want, or wraps it.
func carries(err, want error) bool {
	if err == nil {
		return false
	}
	switch w := want.(type) {
	case *cbErr:
		return errors.Is(err, want)
	case listErr:
		var l listErr
		return errors.As(err, &l) && l.Error() == w.Error()
	case everyErr:
		var e everyErr
		return errors.As(err, &e) && e == w
	}
	return errors.Is(err, want)
}

var errOther = errors.New("other")

func (r *opRun) isPanic(v int) bool {
	switch v % 3 {
	case 1:
		return r.pval == any("injected panic "+r.sentinel.Error())
	case 2:
		_, ok := r.pval.(runtime.Error)
		return ok
	}
	return r.pval == any(r.sentinel)
}

func cbMarshal(id int) ([]byte, error) {
	cl := current()
	if cl == nil || cl.cur == nil {
		return cbBytes(id), nil
	}
	r := cl.cur
	r.calls = append(r.calls, id)
	b, err, stop := r.act(cl, len(r.calls), nil)
	if stop {
		return b, err
	}
	out := cbBytes(id)
	switch r.op.CB.Buf {
	case "reuse":
		cl.count("fault.buf-reuse")
		// one buffer for all calls of this application
		cl.rbuf = append(cl.rbuf[:0], out...)
		return cl.rbuf, nil
	case "spare":
		cl.count("fault.buf-spare")
		full := make([]byte, len(out)+64)
		copy(full, out)
		for i := len(out); i < len(full); i++ {
			full[i] = '!'
		}
		r.spare = append(r.spare, spareBuf{full, len(out), string(out)})
		return full[:len(out)], nil
	}
	return out, nil
}

type spareBuf struct {
	b    []byte
	n    int
	want string
}

func cbUnmarshal(raw []byte, keep bool) (string, error) {
	cl := current()
	if cl == nil || cl.cur == nil {
		return string(raw), nil
	}
	r := cl.cur
	s := string(raw)
	r.raws = append(r.raws, s)
	_, err, stop := r.act(cl, len(r.raws), raw)
	if stop {
		return "", err
	}
	switch r.op.CB.Buf {
	case "scribble":
		if !keep {
			cl.count("fault.raw-scribble")
			for i := range raw[:cap(raw)] {
				raw[:cap(raw)][i] = '#'
			}
		}
	case "append":
		cl.count("fault.raw-append")
		_ = append(raw, "@@@@@@@@@@@@"...)
	case "retain":
		if keep && r.op.M == "scribble" {
			break // the application overwrites it itself
		}
		cl.count("fault.raw-retain")
		r.retain = append(r.retain, spareBuf{raw, len(raw), s})
	}
	return s, nil
}

// unmarshaled is the model of the UnmarshalPHP methods.
func unmarshaled(rt reflect.Type, existing reflect.Value, raw []byte) reflect.Value {
	if existing.IsValid() {
		switch p := existing.Interface().(type) {
		case *UCopy:
			p.Raw = string(raw)
		case *UKeep:
			p.Raw = append([]byte(nil), raw...)
		case *UAcc:
			p.N++
			p.Raw += string(raw)
		}
		return existing
	}
	switch rt {
	case tUCopy:
		return reflect.ValueOf(UCopy{string(raw)})
	case tUKeep:
		return reflect.ValueOf(UKeep{append([]byte(nil), raw...)})
	case tUAcc:
		return reflect.ValueOf(UAcc{1, string(raw)})
	case tUFlag:
		return reflect.ValueOf(UFlag(string(raw) == "b:1;"))
	case tUInt:
		return reflect.ValueOf(uintOf(string(raw)))
	case tUStr:
		return reflect.ValueOf(UStr(raw))
	case tBoth:
		return reflect.ValueOf(Both{idOf(string(raw))})
	}
	if v := unmarshaledOdd(rt, raw); v.IsValid() {
		return v
	}
	panic("world: no model for " + rt.String())
}
