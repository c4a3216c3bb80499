// Command seq explores bounded spaces of inputs, contents and operation histories of the
// sequential API on the real code and compares every outcome with the reference model.
package main

import (
	"fmt"
	"io"
	"log"
	"os"

	"verif.local/mc/rep"
)

type tcase interface {
	P01(*rep.R)
	P02(*rep.R)
	P03(*rep.R)
	P04(*rep.R)
	P05(*rep.R)
	P06(*rep.R)
	P07(*rep.R)
	P08(*rep.R)
	P09(*rep.R)
	P10(*rep.R)
	P11(*rep.R)
	P12(*rep.R)
	P13(*rep.R)
	P14(*rep.R)
	P15(*rep.R)
	P16(*rep.R)
	P17(*rep.R)
	P18(*rep.R)
	P20(*rep.R)
	P22(*rep.R)
	P23(*rep.R)
	P24(*rep.R)
	P26(*rep.R)
	P30(*rep.R)
	P31(*rep.R)
	P32(*rep.R)
	registration(*rep.R, bool)
	far(*rep.R)
}

func each(f func(tcase)) {
	for _, t := range types {
		f(t)
	}
}

func main() {
	log.SetOutput(io.Discard)
	r := rep.Start()
	props := map[string]func(){
		"P01": func() { each(func(t tcase) { t.P01(r) }); p01bool(r) },
		"P02": func() { each(func(t tcase) { t.P02(r) }); p02bool(r) },
		"P03": func() { each(func(t tcase) { t.P03(r) }); p03bool(r) },
		"P04": func() { each(func(t tcase) { t.P04(r) }) },
		"P05": func() { each(func(t tcase) { t.P05(r) }); p05bool(r) },
		"P06": func() { each(func(t tcase) { t.P06(r) }); p06bool(r) },
		"P07": func() { each(func(t tcase) { t.P07(r) }); p07bool(r) },
		"P08": func() { each(func(t tcase) { t.P08(r) }) },
		"P09": func() { each(func(t tcase) { t.P09(r) }) },
		"P10": func() { each(func(t tcase) { t.P10(r) }) },
		"P11": func() { each(func(t tcase) { t.P11(r) }) },
		"P12": func() { each(func(t tcase) { t.P12(r) }) },
		"P13": func() { each(func(t tcase) { t.P13(r) }); p13bool(r) },
		"P14": func() { each(func(t tcase) { t.P14(r) }) },
		"P15": func() { each(func(t tcase) { t.P15(r) }) },
		"P16": func() { each(func(t tcase) { t.P16(r) }) },
		"P17": func() { each(func(t tcase) { t.P17(r) }) },
		"P18": func() { each(func(t tcase) { t.P18(r) }); p18bool(r) },
		"P20": func() { each(func(t tcase) { t.P20(r) }); p20rune(r) },
		"P22": func() { each(func(t tcase) { t.P22(r) }) },
		"P23": func() { each(func(t tcase) { t.P23(r) }) },
		"P24": func() { each(func(t tcase) { t.P24(r) }) },
		"P25": func() { p25(r) },
		"P26": func() { each(func(t tcase) { t.P26(r) }) },
		"P27": func() { p27(r) },
		"P28": func() { p28(r) },
		"P29": func() { p29(r) },
		"P30": func() { each(func(t tcase) { t.P30(r) }); p30bool(r) },
		"P31": func() { each(func(t tcase) { t.P31(r) }) },
		"P32": func() { p32(r); each(func(t tcase) { t.P32(r) }) },
		"P33": func() { p33(r) },
	}
	f, ok := props[r.Prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", r.Prop)
		os.Exit(3)
	}
	switch {
	case r.Far:
		each(func(t tcase) { t.far(r) })
	case r.Sched:
		sched(r)
		f()
		each(func(t tcase) { t.far(r) })
	case r.OwnFormats:
		ownFormats()
		types = types[:2]
		f()
	default:
		f()
	}
	r.Finish()
}
