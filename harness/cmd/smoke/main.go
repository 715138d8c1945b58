package main

import (
	"fmt"
	_ "reduction.dev/reduction/connectors/embedded"
	_ "reduction.dev/reduction/connectors/httpapi"
	_ "reduction.dev/reduction/connectors/kafka"
	_ "reduction.dev/reduction/connectors/kinesis"
	_ "reduction.dev/reduction/connectors/kinesis/kinesisfake"
	_ "reduction.dev/reduction/dkv"
	_ "reduction.dev/reduction/jobs"
	_ "reduction.dev/reduction/jobs/jobserver"
	_ "reduction.dev/reduction/testrun"
	_ "reduction.dev/reduction/workers"
	_ "reduction.dev/reduction/workers/operator"
	_ "reduction.dev/reduction/workers/sourcerunner"
)

func main() { fmt.Println("ok") }
