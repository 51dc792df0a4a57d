"""Transport stand-ins for the CPU (gloo) back end, which lacks uneven all_to_all / all_gather / reduce_scatter.

Only the wire is replaced: the semantics are those torch.distributed documents (and NCCL provides). Chunk sizes that the
ranks disagree on fail here as they would there.
"""
import torch
import torch.distributed as dist
from torch.distributed import distributed_c10d as c10d

_orig = {n: getattr(dist, n) for n in ("all_to_all", "all_gather", "reduce_scatter")}


def _real(t):
    return torch.view_as_real(t) if t.is_complex() else t


class _Done:
    def wait(self, *a, **k):
        return True

    def is_completed(self):
        return True


def _exchange(out_list, in_list, group):
    n = dist.get_world_size(group=group)
    assert len(out_list) == n and len(in_list) == n, (len(out_list), len(in_list), n)
    dt = in_list[0].dtype
    for t in list(out_list) + list(in_list):
        if t.dtype != dt:
            raise RuntimeError("all_to_all: tensors of different types")
        if not t.is_contiguous():
            raise RuntimeError("all_to_all: tensors must be contiguous")
    ins = [_real(t).reshape(-1) for t in in_list]
    outs = [_real(t) for t in out_list]
    # the ranks have to agree on every size
    mine = torch.tensor([t.numel() for t in ins], dtype=torch.int64)
    theirs = torch.empty(n, dtype=torch.int64)
    dist.all_to_all_single(theirs, mine, group=group)
    if theirs.tolist() != [t.numel() for t in outs]:
        raise RuntimeError(f"all_to_all: receive sizes {[t.numel() for t in outs]} do not match send sizes {theirs.tolist()}")
    send = torch.cat(ins) if sum(t.numel() for t in ins) else torch.empty(0, dtype=ins[0].dtype)
    recv = torch.empty(sum(t.numel() for t in outs), dtype=send.dtype)
    dist.all_to_all_single(recv, send, [t.numel() for t in outs], [t.numel() for t in ins], group=group)
    o = 0
    for t in outs:
        t.copy_(recv[o : o + t.numel()].view(t.shape))
        o += t.numel()


def all_to_all(output_tensor_list, input_tensor_list, group=None, async_op=False):
    _exchange(output_tensor_list, input_tensor_list, group)
    return _Done() if async_op else None


def all_gather(tensor_list, tensor, group=None, async_op=False):
    n = dist.get_world_size(group=group)
    _exchange(tensor_list, [tensor] * n, group)
    return _Done() if async_op else None


def reduce_scatter(output, input_list, op=dist.ReduceOp.SUM, group=None, async_op=False):
    n = dist.get_world_size(group=group)
    if op != dist.ReduceOp.SUM:
        raise NotImplementedError("stand-in: only SUM")
    for t in input_list:
        if t.shape != output.shape:
            raise RuntimeError("reduce_scatter: uneven chunks are not supported")
    got = [torch.empty_like(output) for _ in range(n)]
    _exchange(got, list(input_list), group)
    output.copy_(torch.stack(got).sum(dim=0))
    return _Done() if async_op else None


for _m in (dist, c10d):
    _m.all_to_all = all_to_all
    _m.all_gather = all_gather
    _m.reduce_scatter = reduce_scatter
