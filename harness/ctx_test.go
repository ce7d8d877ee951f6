package zzverif

import "context"

type ctxT = context.Context
