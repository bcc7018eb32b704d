CONSTANTS
 Seeds = {1, 2, 3}
 Cuts = {1, 2, 3}
 MaxTasks = 12
 Ordered = TRUE
 Names = {"add", "add_slice", "add_fiber", "prod_fiber3", "sum_slice", "sumprod_slice", "norm_slice", "sum_fiber", "sumprod_fiber", "gemm", "gemm2", "transpose", "maxsumexp", "maxsumexp0", "softmax", "logsumexp", "mask_scalar", "embedding", "embedding_backward", "subtract", "total_sum", "adamw"}
SPECIFICATION Spec
INVARIANTS Refines Frame
CHECK_DEADLOCK FALSE
