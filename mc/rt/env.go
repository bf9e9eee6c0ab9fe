package rt

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"time"
)

// env is what the explorer decides about one execution.
var env struct {
	orderOn bool
	global  int         // permutation of every iteration
	single  map[int]int // permutations of single iterations
	sizes   []int       // sizes of the iterations made
	clock   int         // which of the clocks
}

// Order is a choice for everything the language and the system leave open.
type Order struct {
	Global int
	Single map[int]int
	Clock  int
}

// SetOrder makes the choice for the next execution.
func SetOrder(o Order) {
	env.orderOn, env.global, env.single, env.clock = true, o.Global, o.Single, o.Clock
	env.sizes = env.sizes[:0]
	draws = 0
}

// Sizes are the numbers of elements of the iterations over maps made so far.
func Sizes() []int { return append([]int{}, env.sizes...) }

// OrderOff ends the choices.
func OrderOff() { env.orderOn = false; env.clock = 0; env.global = 0; env.single = nil }

// Permutations is the number of orders of n elements that are explored: all
// up to 4 elements; rotations, transpositions of neighbours and their reverse
// beyond.
func Permutations(n int) int {
	if n <= 4 {
		f := 1
		for i := 2; i <= n; i++ {
			f *= i
		}
		return f
	}
	return 2 * n
}

func permute(n, k int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if k == 0 || n < 2 {
		return p
	}
	if n <= 4 {
		k %= Permutations(n)
		pool := append([]int{}, p...)
		for i := range p {
			f := 1
			for j := 2; j < n-i; j++ {
				f *= j
			}
			j := k / f
			k %= f
			p[i] = pool[j]
			pool = append(pool[:j], pool[j+1:]...)
		}
		return p
	}
	k %= 2 * n
	switch {
	case k < n: // rotation
		for i := range p {
			p[i] = (i + k) % n
		}
	case k == n: // reverse
		for i := range p {
			p[i] = n - 1 - i
		}
	default:
		i := k - n - 1
		p[i], p[i+1] = p[i+1], p[i]
	}
	return p
}

// Entry is an element of a map.
type Entry struct{ m, k reflect.Value }

// Entries are the elements of a map in the order chosen.
func Entries(m interface{}) []*Entry {
	v := reflect.ValueOf(m)
	if !v.IsValid() || v.Len() == 0 {
		return nil
	}
	keys := v.MapKeys()
	sort.Slice(keys, func(i, j int) bool { return keyText(keys[i]) < keyText(keys[j]) })
	k := 0
	if env.orderOn {
		n := len(env.sizes)
		env.sizes = append(env.sizes, len(keys))
		k = env.global
		if s, ok := env.single[n]; ok {
			k = s
		}
	}
	var l []*Entry
	for _, i := range permute(len(keys), k) {
		l = append(l, &Entry{v, keys[i]})
	}
	return l
}

func keyText(k reflect.Value) string {
	if k.Kind() == reflect.String {
		return k.String()
	}
	return fmt.Sprintf("%020v", k.Interface())
}

// Live tells whether the element is still in the map.
func (e *Entry) Live() bool { return e.m.MapIndex(e.k).IsValid() }

// Load sets the variables of the iteration.
func (e *Entry) Load(k, v interface{}) {
	if k != nil {
		reflect.ValueOf(k).Elem().Set(e.k)
	}
	if v != nil {
		reflect.ValueOf(v).Elem().Set(e.m.MapIndex(e.k))
	}
}

var clocks = []time.Time{
	time.Date(2024, 5, 17, 11, 22, 33, 444555666, time.UTC),
	time.Date(1999, 12, 31, 23, 59, 59, 999999999, time.FixedZone("x", -5*3600)),
	time.Date(2101, 1, 1, 0, 0, 0, 0, time.FixedZone("y", 9*3600)),
}

// Clocks is the number of clocks.
func Clocks() int { return len(clocks) }

// Time_Now stands in for time.Now.
func Time_Now() time.Time {
	if !env.orderOn {
		return time.Now()
	}
	return clocks[env.clock%len(clocks)]
}

// Time_Since stands in for time.Since.
func Time_Since(t time.Time) time.Duration {
	if !env.orderOn {
		return time.Since(t)
	}
	return Time_Now().Sub(t)
}

// Os_Getpid stands in for os.Getpid.
func Os_Getpid() int {
	if !env.orderOn {
		return os.Getpid()
	}
	return 1000 + env.clock
}

var draws uint64

func draw() uint64 {
	if !env.orderOn {
		return rand.Uint64()
	}
	draws++
	x := draws + uint64(env.clock)*0x9e3779b97f4a7c15
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

// The functions of math/rand.
func Rand_Seed(int64)           {}
func Rand_Int() int             { return int(draw() >> 1) }
func Rand_Intn(n int) int       { return int(draw()>>1) % n }
func Rand_Int31() int32         { return int32(draw() >> 33) }
func Rand_Int31n(n int32) int32 { return int32(draw()>>33) % n }
func Rand_Int63() int64         { return int64(draw() >> 1) }
func Rand_Int63n(n int64) int64 { return int64(draw()>>1) % n }
func Rand_Uint32() uint32       { return uint32(draw() >> 32) }
func Rand_Uint64() uint64       { return draw() }
func Rand_Float64() float64     { return float64(draw()>>11) / (1 << 53) }
func Rand_Float32() float32     { return float32(draw()>>40) / (1 << 24) }

// Rand_Perm stands in for rand.Perm.
func Rand_Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := Rand_Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

// Rand_Shuffle stands in for rand.Shuffle.
func Rand_Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Rand_Intn(i+1))
	}
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic("rt: bad number " + s)
	}
	return n
}
