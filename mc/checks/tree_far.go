package checks

import (
	"verifmc/engine"
	"verifmc/ref"
)

// Places in branches whose numbers repeat, or differ by a power of two only.
var alikePlaces = [][]int32{{1}, {257}, {65537}, {2}, {1, 2}, {257, 2}, {65537, 2}, {2, 2}, {1, 258}, {2, 2, 2}, {1, 2, 5}, {257, 2, 5}, {65537, 2, 5}, {1, 258, 5}, {1, 2, 261}, {1, 2, 65541}, {2, 2, 5}, {2, 2, 2, 2}}

func alikeKind(p []int32) ref.Kind {
	if p[len(p)-1]&0xf == 5 {
		return ref.Param
	}
	return ref.Node
}

// alikeBase announces all of alikePlaces, nested or by path.
func alikeBase(paths bool) message {
	var l []*ref.Elem
	for _, p := range alikePlaces {
		e := say(place{p, alikeKind(p)}, 1)
		if paths || len(p) == 1 {
			if paths {
				e.Path = p
			}
			l = append(l, e)
			continue
		}
		up := findKid(l, p[0])
		for _, n := range p[1 : len(p)-1] {
			up = findKid(up.Children, n)
		}
		up.Children = append(up.Children, e)
	}
	return msg("everything", l...)
}

// alikeMessage describes up to n of alikePlaces, known or new children of them.
func alikeMessage(c *engine.C, n int) message {
	var l []*ref.Elem
	n = 1 + c.Choose(n)
	first := 0
	for i := 0; i < n; i++ {
		// in ascending order; the other order is the same but for a few
		first += c.Choose(len(alikePlaces) - first)
		p := alikePlaces[first]
		k := alikeKind(p)
		how := c.Choose(3)
		if how == 2 { // a new child
			p = append(append([]int32{}, p...), 9)
			k = ref.Param
		}
		e := say(place{p, k}, 1+how%2*c.Choose(2))
		if how > 0 || len(p) == 1 {
			e.Path = p
		} else {
			for j := len(p) - 1; j > 0; j-- {
				up := say(place{p[:j], ref.Node}, 4)
				up.Children = []*ref.Elem{e}
				e = up
			}
		}
		l = append(l, e)
	}
	return msg("some", l...)
}

// deepMessages announce a branch of n nodes, then things deep in it.
func deepMessages(n int) []message {
	path := make([]int32, n)
	for i := range path {
		path[i] = int32(i % 3)
	}
	var top *ref.Elem
	for i := n; i > 0; i-- {
		e := say(place{path[:i], ref.Node}, 1)
		if top != nil {
			e.Children = []*ref.Elem{top}
		}
		top = e
	}
	below := append(append([]int32{}, path...), 7)
	l := []message{msg("branch", top)}
	for _, p := range [][]int32{path, path[:n-1], below, path[:n/2+1]} {
		k := ref.Node
		if len(p) > n {
			k = ref.Param
		}
		for mode := 1; mode < 3; mode++ {
			e := say(place{p, k}, mode)
			l = append(l, msg("deep by path", byPath(place{p, k}, e)))
			for j := len(p) - 1; j > 0; j-- {
				up := say(place{p[:j], ref.Node}, 4)
				up.Children = []*ref.Elem{e}
				e = up
			}
			l = append(l, msg("deep nested", e))
		}
	}
	return l
}

// manyParents announces n nodes, then new things and changes below each.
func manyParents(n int) []message {
	var base, kids, changes []*ref.Elem
	for i := 0; i < n; i++ {
		base = append(base, say(place{[]int32{int32(i)}, ref.Node}, 1))
		p := place{[]int32{int32(i), 5}, ref.Param}
		kids = append(kids, byPath(p, say(p, 1)))
		changes = append(changes, byPath(p, say(p, 2)))
	}
	return []message{msg("base", base...), msg("kids", kids...), msg("changes", changes...), msg("again", append(append([]*ref.Elem{}, changes...), base...)...)}
}
