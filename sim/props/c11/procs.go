package main

import (
	c0p "blueprint/goproc/c0_proc"
	c10p "blueprint/goproc/c10_proc"
	c11p "blueprint/goproc/c11_proc"
	c12p "blueprint/goproc/c12_proc"
	c13p "blueprint/goproc/c13_proc"
	c14p "blueprint/goproc/c14_proc"
	c15p "blueprint/goproc/c15_proc"
	c16p "blueprint/goproc/c16_proc"
	c17p "blueprint/goproc/c17_proc"
	c18p "blueprint/goproc/c18_proc"
	c19p "blueprint/goproc/c19_proc"
	c1p "blueprint/goproc/c1_proc"
	c20p "blueprint/goproc/c20_proc"
	c21p "blueprint/goproc/c21_proc"
	c22p "blueprint/goproc/c22_proc"
	c23p "blueprint/goproc/c23_proc"
	c2p "blueprint/goproc/c2_proc"
	c3p "blueprint/goproc/c3_proc"
	c4p "blueprint/goproc/c4_proc"
	c5p "blueprint/goproc/c5_proc"
	c6p "blueprint/goproc/c6_proc"
	c7p "blueprint/goproc/c7_proc"
	c8p "blueprint/goproc/c8_proc"
	c9p "blueprint/goproc/c9_proc"
	d0p "blueprint/goproc/d0_proc"
	d10p "blueprint/goproc/d10_proc"
	d11p "blueprint/goproc/d11_proc"
	d12p "blueprint/goproc/d12_proc"
	d13p "blueprint/goproc/d13_proc"
	d14p "blueprint/goproc/d14_proc"
	d15p "blueprint/goproc/d15_proc"
	d16p "blueprint/goproc/d16_proc"
	d17p "blueprint/goproc/d17_proc"
	d18p "blueprint/goproc/d18_proc"
	d19p "blueprint/goproc/d19_proc"
	d1p "blueprint/goproc/d1_proc"
	d20p "blueprint/goproc/d20_proc"
	d21p "blueprint/goproc/d21_proc"
	d22p "blueprint/goproc/d22_proc"
	d23p "blueprint/goproc/d23_proc"
	d2p "blueprint/goproc/d2_proc"
	d3p "blueprint/goproc/d3_proc"
	d4p "blueprint/goproc/d4_proc"
	d5p "blueprint/goproc/d5_proc"
	d6p "blueprint/goproc/d6_proc"
	d7p "blueprint/goproc/d7_proc"
	d8p "blueprint/goproc/d8_proc"
	d9p "blueprint/goproc/d9_proc"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
)

var procs = [][2]func(string) *golang.NamespaceBuilder{
	{c0p.New_c0_proc, d0p.New_d0_proc},
	{c1p.New_c1_proc, d1p.New_d1_proc},
	{c2p.New_c2_proc, d2p.New_d2_proc},
	{c3p.New_c3_proc, d3p.New_d3_proc},
	{c4p.New_c4_proc, d4p.New_d4_proc},
	{c5p.New_c5_proc, d5p.New_d5_proc},
	{c6p.New_c6_proc, d6p.New_d6_proc},
	{c7p.New_c7_proc, d7p.New_d7_proc},
	{c8p.New_c8_proc, d8p.New_d8_proc},
	{c9p.New_c9_proc, d9p.New_d9_proc},
	{c10p.New_c10_proc, d10p.New_d10_proc},
	{c11p.New_c11_proc, d11p.New_d11_proc},
	{c12p.New_c12_proc, d12p.New_d12_proc},
	{c13p.New_c13_proc, d13p.New_d13_proc},
	{c14p.New_c14_proc, d14p.New_d14_proc},
	{c15p.New_c15_proc, d15p.New_d15_proc},
	{c16p.New_c16_proc, d16p.New_d16_proc},
	{c17p.New_c17_proc, d17p.New_d17_proc},
	{c18p.New_c18_proc, d18p.New_d18_proc},
	{c19p.New_c19_proc, d19p.New_d19_proc},
	{c20p.New_c20_proc, d20p.New_d20_proc},
	{c21p.New_c21_proc, d21p.New_d21_proc},
	{c22p.New_c22_proc, d22p.New_d22_proc},
	{c23p.New_c23_proc, d23p.New_d23_proc},
}
