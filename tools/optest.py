"""Engine self-check: every listed operator gives the native result (values are
compared at the path witness) for symbolic operands."""
import os, sys
sys.path[:0] = ["/verif", "/repo"]
import torch
import torch.nn.functional as F
from engine import harness as hh

OPS = """
x+y; x-y; x*y; x/y; x**2; x**3; -x; x.abs(); x.round(); (x*7).round(decimals=1); x.floor(); (3*x).ceil(); (5*x).trunc(); (5*x).frac()
x.exp(); x.log(); x.sqrt(); x.rsqrt(); x.sin(); x.cos(); x.tanh(); x.sigmoid(); x.tan(); x.square(); x.reciprocal(); x.log1p(); x.expm1(); x.exp2(); x.log2(); x.log10()
torch.clamp(x,0.2,0.6); x.clamp(min=0.4); x.clamp_max(0.5); F.relu(x-0.5); F.leaky_relu(x-0.5); F.gelu(x); F.silu(x); F.elu(x-0.5); F.softplus(x); F.hardtanh(x*2-1); F.softmax(x,-1); F.log_softmax(x,-1)
x.sum(); x.sum(0); x.sum(1,keepdim=True); x.mean(); x.mean(1); x.prod(); x.prod(1); x.max(); x.min(); x.max(1)[0]; x.max(1)[1].float(); x.min(0)[0]; x.amax(1); x.amin(0,keepdim=True); x.std(); x.var(1); x.norm(); x.norm(dim=1); x.cumsum(1); x.cumprod(1); x.logsumexp(1); torch.linalg.norm(x,dim=-1); torch.linalg.vector_norm(x); x.norm(p=1,dim=1); x.argmax(1).float(); x.median(); x.sort(1)[0]; x.topk(2,1)[0]; x.flip(0); x.roll(1,1); x.t(); x.diag(); x.triu(); x.tril()
x@y.t(); torch.matmul(x,v); torch.einsum('ij,kj->ik',x,y); torch.einsum('ij,ij->i',x,y); torch.einsum('ijk,ij->k',x.unsqueeze(-1)*w3,x); torch.bmm(b1,b2); torch.baddbmm(b1@b2,b1,b2); torch.addmm(x@y.t(),x,y.t()); torch.mv(x,v); torch.dot(v,v); torch.outer(v,v); torch.tensordot(x,y,dims=([1],[1])); torch.kron(x,y); F.linear(x,y); F.linear(x,y,v[:2]); torch.cross(x,y,dim=1); F.bilinear(x,y,w3.permute(2,1,0)[:1].reshape(1,3,2).repeat(1,1,2)[:,:,:3],None)
torch.cat([x,y],1); torch.stack([x,y]); torch.where(x>0.5,x,y); torch.maximum(x,y); torch.minimum(x,y); torch.lerp(x,y,0.3); torch.addcmul(x,x,y); torch.fmod(7*x,1.5); torch.remainder(7*x,1.5); x.repeat(2,2); x.repeat_interleave(2,1); x.expand(3,2,3); x[:,1]; x[...,None]; x[:,[0,2]]; x[torch.tensor([1,0])]; x.gather(1,torch.tensor([[0,2],[1,1]])); x.index_select(1,torch.tensor([2,0])); torch.take(x,torch.tensor([0,5])); torch.take_along_dim(x,torch.tensor([[0],[1]]),1); x.reshape(-1); x.flatten(); x.view(3,2); x.permute(1,0); x.unfold(1,2,1); x.masked_fill(x>0.5,0.0); x.index_add(0,torch.tensor([1]),x[:1]); x.scatter(1,torch.tensor([[0],[1]]),x[:,:1]); x.scatter_add(1,torch.tensor([[0],[1]]),x[:,:1]); torch.zeros(2,3).index_put((torch.tensor([0]),torch.tensor([1])),x[0,0]); x.chunk(3,1)[1]; x.split(2,1)[0]; x.unbind(0)[1]; x.movedim(0,1); x.swapaxes(0,1); torch.vstack([x,y]); torch.hstack([x,y]); torch.diff(x,dim=1); torch.meshgrid(v,v,indexing='ij')[0]; torch.cartesian_prod(v,v); torch.combinations(v); torch.tile(x,(1,2)); torch.unflatten(x,1,(3,1)); x.narrow(1,0,2); x.select(0,1); torch.heaviside(x-0.5,x*0+0.5); torch.sign(x-0.5); torch.floor_divide(7*x,2); torch.div(7*x,2,rounding_mode='floor'); torch.div(7*x,2,rounding_mode='trunc'); torch.true_divide(x,y); torch.hypot(x,y); torch.atan(x); torch.atan2(x,y); torch.erf(x); torch.bucketize(x,torch.tensor([0.2,0.5,0.8])).float(); torch.searchsorted(torch.tensor([0.2,0.5,0.8]),x).float(); (x*5).long().float(); (x*5).int().float(); (x>0.5).float(); (x>0.5).sum().float(); ((x>0.5)&(y<0.5)).float(); torch.logical_and(x>0.5,y>0.2).float(); torch.isclose(x,y).float(); x.eq(x).float(); torch.any(x>2).float(); torch.all(x<2).float(); torch.count_nonzero(x>0.5).float(); torch.nan_to_num(x); x.type(torch.float64); x.double(); x.to(torch.float64).float(); x.clone(); x.contiguous(); torch.zeros_like(x)+x; torch.full_like(x,2.0)*x; x.new_zeros(2,3)+x; torch.ones(2,3)*x; x.detach()
F.conv1d(c1,k1); F.conv1d(c1,k1,stride=2,padding=1); F.conv2d(c2,k2); F.conv2d(c2,k2,padding=1); F.conv_transpose1d(c1,k1t); F.conv_transpose2d(c2,k2t,stride=2); F.unfold(c2,2); F.fold(F.unfold(c2,2),(3,3),2); F.pad(x,(1,1)); F.pad(x,(1,1),value=2.0); F.pad(c1,(1,1),mode='reflect'); F.pad(c1,(1,1),mode='replicate'); F.pad(c1,(1,1),mode='circular'); F.avg_pool1d(c1,2); F.avg_pool2d(c2,2); F.max_pool1d(c1,2); F.max_pool2d(c2,2); F.adaptive_avg_pool2d(c2,1); F.adaptive_avg_pool1d(c1,2); F.layer_norm(x,(3,)); F.normalize(x,dim=1); F.mse_loss(x,y); F.l1_loss(x,y); F.smooth_l1_loss(x,y); F.cross_entropy(x,torch.tensor([0,2])); F.nll_loss(F.log_softmax(x,1),torch.tensor([0,2])); F.binary_cross_entropy(x,y); F.binary_cross_entropy_with_logits(x,y); F.kl_div(x.log(),y); F.interpolate(c1,scale_factor=2); F.interpolate(c2,scale_factor=2,mode='nearest'); F.interpolate(c1,scale_factor=2,mode='linear'); F.batch_norm(x,None,None,training=True); F.instance_norm(c1); F.group_norm(c1,1); F.scaled_dot_product_attention(b1,b1,b1); F.one_hot((x*2).long(),3).float(); F.pixel_shuffle(torch.cat([c2]*4,1),2); F.cosine_similarity(x,y); F.dropout(x,0.5,False); torch.cdist(x,y); F.embedding(torch.tensor([0,1]),x); F.tanh(x); F.hardsigmoid(x); F.glu(torch.cat([x,x],1)); F.softmin(x,1); F.logsigmoid(x); F.mish(x); F.prelu(x-0.5,v[:1]); torch.logaddexp(x,y); x.clone().mul_(y); x.clone().add_(y,alpha=2); x.clone().div_(y); x.clone().clamp_(0.2,0.5); x.clone().copy_(y); x.clone().fill_(1.)+x; x.clone().zero_()+x; x.clone().pow_(2); x.clone().sub_(1); x.clone().neg_(); x.clone().sqrt_(); x.clone().exp_(); x.clone().masked_fill_(x>0.5,1.); x.clone().index_fill_(1,torch.tensor([0]),0.)+x; x.clone().sign_()+x; x.clone().sigmoid_(); x.clone().lerp_(y,0.2); x.clone().addcmul_(x,y); x.clone().addcdiv_(x,y); x.clone().t_(); x.sum().item()+x; torch.tensor(x[0,0].item())+x; torch.as_tensor([x[0,0],x[0,1]]); torch.tensor([[x[0,0]]]); torch.stack([a*2 for a in x]); torch.vmap(lambda r: r.sum())(x); sum(x); torch.sum(torch.stack([x,y]),0); x.T; x.mT; x.addmm(x.t()@y,y.t()@x) if False else x; torch.linalg.matrix_norm(x); x.trace() if False else (x@x.t()).trace(); torch.linspace(0,1,3)*x; torch.arange(3)*x; torch.polyval(x,v) if hasattr(torch,'polyval') else x; torch.vander(v) ; torch.special.expit(x); torch.sinc(x); torch.float_power(x,2).float(); torch.nansum(x); torch.nanmean(x); torch.aminmax(x)[1]; x.mode(1)[0] if False else x; torch.histc(x,3,0,1) if False else x; torch.clamp(x,torch.tensor(0.2),torch.tensor(0.6)); torch.clamp(x,y*0.5,y); x.logical_not().float(); torch.addr(x[:,:2]@x[:2,:2],x[:2,0],x[:2,1]); torch.chain_matmul(x,y.t(),x) if False else x; torch.linalg.multi_dot([x,y.t(),x]); torch.block_diag(x,y); torch.ravel(x); torch.rot90(x); torch.fliplr(x); torch.squeeze(x[None]); torch.index_select(x,0,torch.tensor([1])); torch.masked_select(x,torch.tensor([[True,False,True],[False,True,True]])); x[x>-1]; x[x>0.5] if False else x; torch.nonzero(x>-1).float(); torch.argsort(x,1).float(); torch.unique(x) if False else x; torch.dist(x,y); torch.renorm(x,2,0,1.0); torch.bernoulli(x) if False else x; torch.complex(x,y).abs(); torch.view_as_real(torch.complex(x,y)); torch.polar(x,y).real; torch.fft.fft(x).real; torch.stft if False else x; torch.linalg.inv(x[:,:2]); torch.linalg.det(x[:,:2]); torch.linalg.solve(x[:,:2],y[:,:2]); torch.inverse(x[:,:2]); torch.linalg.qr(x)[1] if False else x
"""


def run(h, expr):
    x = h.real("x", (2, 3), 0.1, 0.9)
    y = h.real("y", (2, 3), 0.1, 0.9)
    v = h.real("v", (3,), 0.1, 0.9)
    w3 = h.real("w3", (2, 3, 2), 0.1, 0.9)
    b1 = h.real("b1", (2, 2, 2), 0.1, 0.9)
    b2 = h.real("b2", (2, 2, 2), 0.1, 0.9)
    c1 = h.real("c1", (1, 2, 4), 0.1, 0.9)
    k1 = h.real("k1", (1, 2, 2), 0.1, 0.9)
    k1t = h.real("k1t", (2, 1, 2), 0.1, 0.9)
    c2 = h.real("c2", (1, 1, 3, 3), 0.1, 0.9)
    k2 = h.real("k2", (1, 1, 2, 2), 0.1, 0.9)
    k2t = h.real("k2t", (1, 1, 2, 2), 0.1, 0.9)
    r = eval(expr, dict(globals()), locals())
    h.e(r)
    h.asserted += 1


bad = 0
exprs = [e.strip() for l in OPS.strip().splitlines() for e in l.split(";") if e.strip()]
for ex in exprs:
    if len(sys.argv) > 1 and sys.argv[1] not in ex:
        continue
    try:
        r = hh.run_job(run, {"expr": ex}, budget=20, opts={"max_paths": 3})
        st, n = r["status"], r["notes"]
    except BaseException as e:
        st, n = "EXC", [repr(e)[:200]]
    if st not in ("ok",) and not (st == "inconclusive" and "path limit" in str(n)):
        bad += 1
        print(st, "|", ex, "|", str(n)[:160], r.get("replay", "")[:100])
print(len(exprs), "expressions,", bad, "not covered")
