package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"io"
	"log"
	"os"
)

var (
	seed     int64
	thorough bool
	genFile  string
	statFile string
	curTrace *tracer
)

func exit(code int) {
	os.Exit(code)
}

// readGen loads the specification-generated programs
func readGen[P any](out *[]P) {
	if genFile == "" {
		return
	}
	f, err := os.Open(genFile)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var p P
		must(json.Unmarshal(sc.Bytes(), &p))
		*out = append(*out, p)
	}
	must(sc.Err())
}

func main() {
	driver := os.Args[1]
	fs := flag.NewFlagSet(driver, flag.ExitOnError)
	out := fs.String("out", "trace.ndjson", "")
	only := fs.Int("only", 0, "")
	after := fs.Int("after", 0, "")
	fs.Int64Var(&seed, "seed", 1, "")
	fs.BoolVar(&thorough, "thorough", false, "")
	fs.StringVar(&genFile, "gen", "", "")
	must(fs.Parse(os.Args[2:]))
	log.SetOutput(io.Discard)
	t := newTracer(*out, *only, *after)
	d, ok := drivers[driver]
	assert(ok, "driver %s", driver)
	d(t)
	t.close()
}

var drivers = map[string]func(*tracer){
	"c01": func(t *tracer) { noMaps = true; storeDriver(t, obsFlags{cells: true}) },
	"c02": func(t *tracer) { storeDriver(t, obsFlags{cells: true, views: true}) },
	"c19": accessDriver,
	"c21": aliasDriver,
	"c04": heapDriver,
	"c04ops": func(t *tracer) {
		for _, c := range []string{"c06", "c07", "c08", "c09"} {
			opsDriver(t, opsOf[c], true)
		}
	},
	"c05":    eqDriver,
	"c10":    reduceDriver,
	"c11":    cancelDriver,
	"c12":    lockDriver,
	"c13":    readersDriver,
	"c14":    bfsDriver,
	"c15":    strassenDriver,
	"c16":    rrefDriver,
	"c17":    symmetryDriver,
	"c18":    sortDriver,
	"c20":    operatorsDriver,
	"c11ctx": contextDriver,
	"c06":    func(t *tracer) { opsDriver(t, opsOf["c06"], false) },
	"c07":    func(t *tracer) { opsDriver(t, opsOf["c07"], false) },
	"c08":    func(t *tracer) { opsDriver(t, opsOf["c08"], false) },
	"c09":    func(t *tracer) { opsDriver(t, opsOf["c09"], false) },
	"c03":    func(t *tracer) { storeDriver(t, obsFlags{cells: true, enum: true}) },
}
