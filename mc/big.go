package main

import "github.com/aligator/goslice/data"

// bigScenes lists objects which are simple, but larger than those of the other
// sections in one way: many layers, many parts, many holes, far away or long.
// f gets the number of objects and a function which makes them for given options.
func bigScenes(c *Ctx, f func(name string, n int, mk func(i int, o *data.Options) *scene)) {
	tower := func(o *data.Options, g *grid, slabs []int) *scene {
		in, th := int64(o.Print.InitialLayerThickness), int64(o.Print.LayerThickness)
		zs := []int64{0}
		for k := range slabs {
			zs = append(zs, in+int64(k)*th+th/2)
		}
		s := newScene(g, zs...)
		for k, m := range slabs {
			s.slabs[k] = cellsFromMask(g, m)
		}
		return s
	}
	gt := &grid{xs: []int64{0, 5000, 9000, 15000}, ys: []int64{0, 6000}}
	// one change somewhere in a high tower: which cells there are below it, in its layer and above it
	const high = 44
	changes := [][3]int{{7, 5, 7}, {7, 0, 7}, {2, 7, 2}, {7, 7, 2}, {1, 7, 7}, {4, 1, 4}}
	f("one change in a tower", (high-2)*len(changes), func(i int, o *data.Options) *scene {
		ch := changes[i%len(changes)]
		at := i/len(changes) + 1
		slabs := make([]int, high)
		for k := range slabs {
			slabs[k] = ch[2]
			if k < at {
				slabs[k] = ch[0]
			} else if k == at {
				slabs[k] = ch[1]
			}
		}
		return tower(o, gt, slabs)
	})
	f("towers of all heights", 64, func(i int, o *data.Options) *scene {
		slabs := make([]int, i+1)
		for k := range slabs {
			slabs[k] = k*5%7 + 1
		}
		return tower(o, gt, slabs)
	})
	f("many parts", 24*3, func(i int, o *data.Options) *scene {
		n := i%24 + 1
		var g *grid
		if i/24 < 2 {
			g = uniGrid(2*n-1, 1, 3200)
		} else {
			// in two rows of different size
			g = &grid{xs: uniGrid(2*n-1, 1, 2900).xs, ys: []int64{0, 3000, 6000, 10000}}
		}
		s := newScene(g, 0, 500, 1100)
		for x := 0; x < g.nx(); x++ {
			for y := 0; y < g.ny(); y += 2 {
				s.slabs[0].on[y*g.nx()+x] = x%2 == 0 || i/24 == 1
				s.slabs[1].on[y*g.nx()+x] = x%2 == 0
			}
		}
		return s
	})
	f("many holes", 20*2, func(i int, o *data.Options) *scene {
		n := i%20 + 1
		g := uniGrid(2*n+1, 3, 3200)
		s := newScene(g, 0, 500, 1100)
		for x := 0; x < g.nx(); x++ {
			for y := 0; y < 3; y++ {
				hole := x%2 == 1 && y == 1
				s.slabs[0].on[y*g.nx()+x] = !hole
				s.slabs[1].on[y*g.nx()+x] = !hole || i/20 == 1
			}
		}
		return s
	})
	f("rows of rings", 6*6, func(i int, o *data.Options) *scene {
		nx, ny := i%6+1, i/6+1
		g := uniGrid(4*nx-1, 4*ny-1, 2500)
		s := newScene(g, 0, 700)
		for x := 0; x < g.nx(); x++ {
			for y := 0; y < g.ny(); y++ {
				s.slabs[0].on[y*g.nx()+x] = x%4 < 3 && y%4 < 3 && !(x%4 == 1 && y%4 == 1)
			}
		}
		return s
	})
	gf := &grid{xs: []int64{0, 4000, 7500, 12000}, ys: []int64{0, 5000, 8000}}
	masks := []int{0x3f, 0x2d, 0x15, 0x2f, 0x3d, 0x27, 0x3a, 0x1f}
	centers := []data.MicroVec3{
		data.NewMicroVec3(0, 0, 0), data.NewMicroVec3(-100000, -50000, 0), data.NewMicroVec3(1000000, 1000000, 0), data.NewMicroVec3(-999999, 777777, 0),
		data.NewMicroVec3(123456, -654321, 0), data.NewMicroVec3(5, 6000, 0), data.NewMicroVec3(6000, -4001, 0), data.NewMicroVec3(2147483, 2147484, 0),
	}
	f("at other places", len(centers)*len(masks)*len(masks), func(i int, o *data.Options) *scene {
		o.Printer.Center = centers[i%len(centers)]
		s := newScene(gf, 0, 550, 1250)
		s.slabs[0], s.slabs[1] = cellsFromMask(gf, masks[i/len(centers)%len(masks)]), cellsFromMask(gf, masks[i/len(centers)/len(masks)])
		return s
	})
	sizes := []int64{30000, 70000, 110000}
	f("long objects", len(sizes)*3*15, func(i int, o *data.Options) *scene {
		l := sizes[i%3]
		g := &grid{xs: []int64{0, l, l + 5000}, ys: []int64{0, 5000, 9000}}
		if i/3%3 == 1 {
			g = &grid{xs: []int64{0, 5000, 9000}, ys: []int64{0, 5000, l}}
		} else if i/3%3 == 2 {
			g = &grid{xs: []int64{0, l / 2, l}, ys: []int64{0, l / 2, l}}
		}
		s := newScene(g, 0, 550, 1250)
		s.slabs[0], s.slabs[1] = cellsFromMask(g, i/9+1), cellsFromMask(g, (i/9)*7%15+1)
		return s
	})
}

// bigAreas lists areas with many parts, holes, corners or levels, far away or long.
func bigAreas(c *Ctx, f func(name string, n int, mk func(i int) cells)) {
	draw := func(g *grid, on func(x, y int) bool) cells {
		w := newCells(g)
		for k := range w.on {
			w.on[k] = on(k%g.nx(), k/g.nx())
		}
		return w
	}
	f("many parts", 40, func(i int) cells {
		return draw(uniGrid(2*i+1, 1, 2000), func(x, y int) bool { return x%2 == 0 })
	})
	f("many holes", 40, func(i int) cells {
		return draw(uniGrid(2*i+3, 3, 2000), func(x, y int) bool { return x%2 == 0 || y != 1 })
	})
	f("rows of rings", 36, func(i int) cells {
		return draw(uniGrid(4*(i%6)+3, 4*(i/6)+3, 1900), func(x, y int) bool { return x%4 < 3 && y%4 < 3 && !(x%4 == 1 && y%4 == 1) })
	})
	f("plates with many holes", 36, func(i int) cells {
		return draw(uniGrid(2*(i%6)+3, 2*(i/6)+3, 1900), func(x, y int) bool { return x%2 == 0 || y%2 == 0 })
	})
	f("combs", 30, func(i int) cells {
		return draw(uniGrid(2*i+1, 2, 2100), func(x, y int) bool { return x%2 == 0 || y == 0 })
	})
	f("levels", 16*2, func(i int) cells {
		n := 2*(i/2) + 3
		return draw(uniGrid(2*n-1, 2*n-1, 1700), func(x, y int) bool {
			d := min(min(x, 2*n-2-x), min(y, 2*n-2-y))
			return d%2 == 0 && (i%2 == 0 || x != n-1 || y >= d+1) // open rings are a labyrinth
		})
	})
	f("spirals", 12, func(i int) cells {
		n := 2*i + 5
		g := uniGrid(n, n, 1800)
		w := newCells(g)
		x, y, dx, dy := 0, 0, 1, 0
		at := func(x, y int) bool { return x >= 0 && y >= 0 && x < n && y < n && w.on[y*n+x] }
		for turns := 0; turns < 2; {
			w.on[y*n+x] = true
			nx, ny := x+dx, y+dy
			if nx < 0 || ny < 0 || nx >= n || ny >= n || at(nx, ny) || at(nx+dx, ny+dy) {
				dx, dy = -dy, dx
				turns++
				continue
			}
			x, y, turns = nx, ny, 0
		}
		return w
	})
	masks := []int{511 - 16, 511, 1 + 4 + 16 + 64 + 256, 7 + 448, 2 + 32 + 128 + 8}
	offs := []pt{{1000000, 1000000}, {-999999, 500001}, {2147480000, -7}, {-2147490000, 4294960000}, {1 << 24, 1 << 25}}
	f("far away", len(masks)*len(offs), func(i int) cells {
		g := (&grid{xs: []int64{0, 2500, 5001, 9000}, ys: []int64{0, 3000, 5000, 8000}}).shift(offs[i/len(masks)].x, offs[i/len(masks)].y)
		return cellsFromMask(g, masks[i%len(masks)])
	})
	lens := []int64{60000, 300000, 900000, 1500000}
	f("long", len(masks)*len(lens)*2, func(i int) cells {
		l := lens[i/len(masks)%len(lens)]
		g := &grid{xs: []int64{0, 3000, l, l + 4000}, ys: []int64{0, 3000, 5000, 8000}}
		if i/len(masks)/len(lens) == 1 {
			g.xs, g.ys = g.ys, g.xs
		}
		return cellsFromMask(g, masks[i%len(masks)])
	})
}

// embraced are objects with one part inside of the bounds of another one which it does not touch, and with each
// choice of what lies below and above them.
func embraced(c *Ctx) (n int, mk func(i int) *scene) {
	shapes := []string{
		"#####/#...#/#...#/#...#/#####", // ring
		"#...#/#...#/#...#/#...#/#####", // U
		"#####/....#/....#/....#/#####", // the same, turned
		"#..../#..../#..../#..../#####", // L
		"....#/....#/....#/....#/#####", // the same, turned
		"#####/#####/##.../##.../##...", // wide L
		"..#../..#../#####/..#../..#..", // cross
		"##.../.##../..##./...##/....#", // stair
		"#####/#...#/#...#/##..#/.####", // ring with a chamfer
	}
	type pair struct{ outer, inner []bool }
	var pairs []pair
	for _, s := range shapes {
		rows := splitRows(s)
		outer := make([]bool, 25)
		for y, r := range rows {
			for x := range r {
				outer[y*5+x] = r[x] == '#'
			}
		}
		near := func(x, y int) bool {
			for a := x - 1; a <= x+1; a++ {
				for b := y - 1; b <= y+1; b++ {
					if a >= 0 && b >= 0 && a < 5 && b < 5 && outer[b*5+a] {
						return true
					}
				}
			}
			return false
		}
		for x0 := 0; x0 < 5; x0++ {
			for y0 := 0; y0 < 5; y0++ {
				for x1 := x0; x1 < 5; x1++ {
				next:
					for y1 := y0; y1 < 5; y1++ {
						inner := make([]bool, 25)
						for x := x0; x <= x1; x++ {
							for y := y0; y <= y1; y++ {
								if near(x, y) {
									continue next
								}
								inner[y*5+x] = true
							}
						}
						pairs = append(pairs, pair{outer, inner})
					}
				}
			}
		}
	}
	g := &grid{xs: []int64{0, 3000, 6100, 9000, 12300, 16000}, ys: []int64{0, 3300, 6000, 9100, 12000, 15000}}
	return len(pairs) * 16, func(i int) *scene {
		p := pairs[i/16]
		s := newScene(g, 0, 700, 1450, 2200)
		for j := range p.outer {
			pick := func(k int) bool { return k == 3 || k == 1 && p.outer[j] || k == 2 && p.inner[j] }
			s.slabs[0].on[j] = pick(i % 4)
			s.slabs[1].on[j] = p.outer[j] || p.inner[j]
			s.slabs[2].on[j] = pick(i / 4 % 4)
		}
		return s
	}
}
