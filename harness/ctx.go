package main

import "context"

var bgctx = context.Background()
