package gv

import (
	"os"
	"runtime"
	"strconv"
	"time"

	"github.com/jumboframes/armorigo/log"
)

// debugAids serves those who investigate a replay: GV_LOG=FILE receives the
// library's log, GV_DUMPAT=SECONDS dumps the goroutines to GV_LOG.dump once so
// much virtual time has passed.
func debugAids() func() {
	file := os.Getenv("GV_LOG")
	if file == "" {
		return func() {}
	}
	f, err := os.OpenFile(file, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	log.SetOutput(f)
	log.SetFlags(2 | 4)
	log.SetLevel(log.LevelDebug)
	if os.Getenv("GV_LOG_TRACE") != "" {
		log.SetLevel(log.LevelTrace)
	}
	at, _ := strconv.Atoi(os.Getenv("GV_DUMPAT"))
	if at == 0 {
		return func() {}
	}
	t := time.AfterFunc(time.Duration(at)*time.Second, func() {
		buf := make([]byte, 4<<20)
		buf = buf[:runtime.Stack(buf, true)]
		os.WriteFile(file+".dump", buf, 0o644)
	})
	return func() { t.Stop() }
}
