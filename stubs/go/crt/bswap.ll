target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
target triple = "x86_64-pc-linux-gnu"
declare i256 @llvm.bswap.i256(i256)
define void @go_bswap_mem(ptr %o, ptr %i) nounwind {
  %v = load i256, ptr %i, align 8
  %r = call i256 @llvm.bswap.i256(i256 %v)
  store i256 %r, ptr %o, align 8
  ret void
}
