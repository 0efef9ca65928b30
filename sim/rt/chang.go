package rt

import "unsafe"

// Generic front end of the channel operations; thin, because it is compiled
// (with instrumentation) into the simulated packages.

// RC is the receiving side of a channel.
type RC[T any] struct{ c <-chan T }

// CR wraps a channel for receiving.
func CR[T any](c <-chan T) RC[T] { return RC[T]{c} }

// SC is the sending side of a channel.
type SC[T any] struct{ c chan<- T }

// CS wraps a channel for sending.
func CS[T any](c chan<- T) SC[T] { return SC[T]{c} }

// Recv is <-c.
func (r RC[T]) Recv() T {
	x, _ := ChanRecv(*(*unsafe.Pointer)(unsafe.Pointer(&r.c)), cap(r.c))
	v, _ := x.(T)
	return v
}

// Recv2 is v, ok := <-c.
func (r RC[T]) Recv2() (T, bool) {
	x, ok := ChanRecv(*(*unsafe.Pointer)(unsafe.Pointer(&r.c)), cap(r.c))
	v, _ := x.(T)
	return v, ok
}

// Len is len(c).
func (r RC[T]) Len() int {
	return ChanLenOf(*(*unsafe.Pointer)(unsafe.Pointer(&r.c)), cap(r.c))
}

// Send is c <- v.
func (s SC[T]) Send(v T) {
	ChanSend(*(*unsafe.Pointer)(unsafe.Pointer(&s.c)), cap(s.c), v)
}

// Close is close(c).
func (s SC[T]) Close() {
	ChanClose(*(*unsafe.Pointer)(unsafe.Pointer(&s.c)), cap(s.c))
}

// Len is len(c).
func (s SC[T]) Len() int {
	return ChanLenOf(*(*unsafe.Pointer)(unsafe.Pointer(&s.c)), cap(s.c))
}

// RecvCase is a receive case of a select statement.
type RecvCase[T any] struct{ k *SelCase }

// SelRecv adds a receive case.
func SelRecv[T any](s *Sel, c <-chan T) RecvCase[T] {
	return RecvCase[T]{s.AddRecv(*(*unsafe.Pointer)(unsafe.Pointer(&c)), cap(c))}
}

// SendTo prepares a send case.
type SendTo[T any] struct {
	s *Sel
	c chan<- T
}

// SelSend starts a send case.
func SelSend[T any](s *Sel, c chan<- T) SendTo[T] { return SendTo[T]{s, c} }

// Val completes the send case.
func (x SendTo[T]) Val(v T) {
	x.s.AddSend(*(*unsafe.Pointer)(unsafe.Pointer(&x.c)), cap(x.c), v)
}

// Get returns the received value.
func (r RecvCase[T]) Get() T {
	x, _ := r.k.Result()
	v, _ := x.(T)
	return v
}

// Get2 returns the received value and whether the channel was open.
func (r RecvCase[T]) Get2() (T, bool) {
	x, ok := r.k.Result()
	v, _ := x.(T)
	return v, ok
}
