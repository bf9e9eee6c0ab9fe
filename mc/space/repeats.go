package space

import (
	"fmt"
	"strings"

	. "verif/mc/xsd"
)

// Repeats enumerates content models that name the same element, the same
// global element or the same group more than once: one that stands directly
// in a compositor or within a nested one, times one to two more, over the
// occurrence bounds of the compositors and of each of them, with another
// member before, between and after.
func Repeats(occ []string, three bool, emit func(Item)) {
	type thing struct {
		name string
		make func(max string) *Particle
	}
	things := []thing{
		{"elem", func(max string) *Particle { return El("x", XS("int"), max) }},
		{"elem of HC", func(max string) *Particle { return El("x", T("HC"), max) }},
		{"ref", func(max string) *Particle { return ElE(&Elem{Ref: T("HE"), Max: max}) }},
		{"group", func(max string) *Particle { return &Particle{Kind: "group", Ref: T("HG"), Max: max} }},
	}
	need := []string{"HS", "HE", "HG", "HC"}
	kinds := []string{"sequence", "choice"}
	// places of one of the things: direct, or in a nested compositor
	type place struct {
		kind, occ, max string
	}
	var places []place
	for _, o := range occ {
		places = append(places, place{"", "", o})
	}
	for _, k := range kinds {
		for _, oc := range occ {
			for _, o := range occ {
				if oc == "" || o == "" {
					places = append(places, place{k, oc, o})
				}
			}
		}
	}
	str := func(p place) string {
		if p.kind == "" {
			return "x" + p.max
		}
		return p.kind + p.occ + "[x" + p.max + "]"
	}
	for _, cx := range contexts {
		for _, t := range things {
			for _, kind := range kinds {
				for _, o := range occ {
					var rec func(cur []place)
					rec = func(cur []place) {
						if len(cur) >= 2 {
							c := append([]place{}, cur...)
							for fill := 0; fill < 2; fill++ {
								cx, t, kind, o, fill := cx, t, kind, o, fill
								var l []string
								for _, p := range c {
									l = append(l, str(p))
								}
								emit(item(fmt.Sprintf("%s: %s%s[%s] of one %s, fillers %d", cx.name, kind, o, strings.Join(l, " "), t.name, fill), append(need, cx.needs...), false, func() []Comp {
									top := P(kind, o)
									for i, p := range c {
										x := t.make(p.max)
										if p.kind != "" {
											x = P(p.kind, p.occ, x)
											if fill == 1 {
												x.Kids = append([]*Particle{El(fmt.Sprintf("b%d", i), XS("string"), "")}, x.Kids...)
											}
										}
										if fill == 1 {
											top.Kids = append(top.Kids, El(fmt.Sprintf("a%d", i), XS("string"), ""))
										}
										top.Kids = append(top.Kids, x)
									}
									return cx.make(top, nil)
								}))
							}
						}
						n := 2
						if three {
							n = 3
						}
						if len(cur) == n {
							return
						}
						for _, p := range places {
							rec(append(cur, p))
						}
					}
					rec(nil)
				}
			}
		}
	}
}
