package sim

import "time"

func nowUnix() uint64 { return uint64(time.Now().Unix()) }
