// written by tools/mkc21.py
use super::*;
pub fn rx_pf<P>() -> Vec<(&'static str, fn(u32) -> Receiver<P>)>
where P: Pr {
    vec![
        ("Ffp", |f| infrared::receiver().frequency(f / 2 + 1).frequency(f).protocol::<P>().build()),
        ("Fpf", |f| infrared::receiver().frequency(f / 2 + 1).protocol::<P>().frequency(f).build()),
        ("Qfp", |f| infrared::receiver().protocol::<Other>().frequency(f).protocol::<P>().build()),
        ("Qpf", |f| infrared::receiver().protocol::<Other>().protocol::<P>().frequency(f).build()),
        ("fQp", |f| infrared::receiver().frequency(f).protocol::<Other>().protocol::<P>().build()),
        ("fp", |f| infrared::receiver().frequency(f).protocol::<P>().build()),
        ("pFf", |f| infrared::receiver().protocol::<P>().frequency(f / 2 + 1).frequency(f).build()),
        ("pf", |f| infrared::receiver().protocol::<P>().frequency(f).build()),
    ]
}
pub fn rx_p<P>() -> Vec<(&'static str, fn(u32) -> Receiver<P>)>
where P: Pr {
    vec![
        ("p", |_| infrared::receiver().protocol::<P>().build()),
    ]
}
pub fn rx_pfm<P, M>() -> Vec<(&'static str, fn(u32) -> Receiver<P, NoPin, M, <P as Protocol>::Cmd>)>
where P: Pr + DecoderBuilder<M>, M: InfraMonotonic {
    vec![
        ("Ffmp", |f| infrared::receiver().frequency(f / 2 + 1).frequency(f).monotonic::<M>().protocol::<P>().build()),
        ("Ffpm", |f| infrared::receiver().frequency(f / 2 + 1).frequency(f).protocol::<P>().monotonic::<M>().build()),
        ("Fmfp", |f| infrared::receiver().frequency(f / 2 + 1).monotonic::<M>().frequency(f).protocol::<P>().build()),
        ("Fmpf", |f| infrared::receiver().frequency(f / 2 + 1).monotonic::<M>().protocol::<P>().frequency(f).build()),
        ("Fpfm", |f| infrared::receiver().frequency(f / 2 + 1).protocol::<P>().frequency(f).monotonic::<M>().build()),
        ("Fpmf", |f| infrared::receiver().frequency(f / 2 + 1).protocol::<P>().monotonic::<M>().frequency(f).build()),
        ("Mfmp", |f| infrared::receiver().monotonic::<u64>().frequency(f).monotonic::<M>().protocol::<P>().build()),
        ("Mfpm", |f| infrared::receiver().monotonic::<u64>().frequency(f).protocol::<P>().monotonic::<M>().build()),
        ("Mmfp", |f| infrared::receiver().monotonic::<u64>().monotonic::<M>().frequency(f).protocol::<P>().build()),
        ("Mmpf", |f| infrared::receiver().monotonic::<u64>().monotonic::<M>().protocol::<P>().frequency(f).build()),
        ("Mpfm", |f| infrared::receiver().monotonic::<u64>().protocol::<P>().frequency(f).monotonic::<M>().build()),
        ("Mpmf", |f| infrared::receiver().monotonic::<u64>().protocol::<P>().monotonic::<M>().frequency(f).build()),
        ("Qfmp", |f| infrared::receiver().protocol::<Other>().frequency(f).monotonic::<M>().protocol::<P>().build()),
        ("Qfpm", |f| infrared::receiver().protocol::<Other>().frequency(f).protocol::<P>().monotonic::<M>().build()),
        ("Qmfp", |f| infrared::receiver().protocol::<Other>().monotonic::<M>().frequency(f).protocol::<P>().build()),
        ("Qmpf", |f| infrared::receiver().protocol::<Other>().monotonic::<M>().protocol::<P>().frequency(f).build()),
        ("Qpfm", |f| infrared::receiver().protocol::<Other>().protocol::<P>().frequency(f).monotonic::<M>().build()),
        ("Qpmf", |f| infrared::receiver().protocol::<Other>().protocol::<P>().monotonic::<M>().frequency(f).build()),
        ("fMmp", |f| infrared::receiver().frequency(f).monotonic::<u64>().monotonic::<M>().protocol::<P>().build()),
        ("fMpm", |f| infrared::receiver().frequency(f).monotonic::<u64>().protocol::<P>().monotonic::<M>().build()),
        ("fQmp", |f| infrared::receiver().frequency(f).protocol::<Other>().monotonic::<M>().protocol::<P>().build()),
        ("fQpm", |f| infrared::receiver().frequency(f).protocol::<Other>().protocol::<P>().monotonic::<M>().build()),
        ("fmQp", |f| infrared::receiver().frequency(f).monotonic::<M>().protocol::<Other>().protocol::<P>().build()),
        ("fmp", |f| infrared::receiver().frequency(f).monotonic::<M>().protocol::<P>().build()),
        ("fpMm", |f| infrared::receiver().frequency(f).protocol::<P>().monotonic::<u64>().monotonic::<M>().build()),
        ("fpm", |f| infrared::receiver().frequency(f).protocol::<P>().monotonic::<M>().build()),
        ("mFfp", |f| infrared::receiver().monotonic::<M>().frequency(f / 2 + 1).frequency(f).protocol::<P>().build()),
        ("mFpf", |f| infrared::receiver().monotonic::<M>().frequency(f / 2 + 1).protocol::<P>().frequency(f).build()),
        ("mQfp", |f| infrared::receiver().monotonic::<M>().protocol::<Other>().frequency(f).protocol::<P>().build()),
        ("mQpf", |f| infrared::receiver().monotonic::<M>().protocol::<Other>().protocol::<P>().frequency(f).build()),
        ("mfQp", |f| infrared::receiver().monotonic::<M>().frequency(f).protocol::<Other>().protocol::<P>().build()),
        ("mfp", |f| infrared::receiver().monotonic::<M>().frequency(f).protocol::<P>().build()),
        ("mpFf", |f| infrared::receiver().monotonic::<M>().protocol::<P>().frequency(f / 2 + 1).frequency(f).build()),
        ("mpf", |f| infrared::receiver().monotonic::<M>().protocol::<P>().frequency(f).build()),
        ("pFfm", |f| infrared::receiver().protocol::<P>().frequency(f / 2 + 1).frequency(f).monotonic::<M>().build()),
        ("pFmf", |f| infrared::receiver().protocol::<P>().frequency(f / 2 + 1).monotonic::<M>().frequency(f).build()),
        ("pMfm", |f| infrared::receiver().protocol::<P>().monotonic::<u64>().frequency(f).monotonic::<M>().build()),
        ("pMmf", |f| infrared::receiver().protocol::<P>().monotonic::<u64>().monotonic::<M>().frequency(f).build()),
        ("pfMm", |f| infrared::receiver().protocol::<P>().frequency(f).monotonic::<u64>().monotonic::<M>().build()),
        ("pfm", |f| infrared::receiver().protocol::<P>().frequency(f).monotonic::<M>().build()),
        ("pmFf", |f| infrared::receiver().protocol::<P>().monotonic::<M>().frequency(f / 2 + 1).frequency(f).build()),
        ("pmf", |f| infrared::receiver().protocol::<P>().monotonic::<M>().frequency(f).build()),
    ]
}
pub fn rx_pm<P, M>() -> Vec<(&'static str, fn(u32) -> Receiver<P, NoPin, M, <P as Protocol>::Cmd>)>
where P: Pr + DecoderBuilder<M>, M: InfraMonotonic {
    vec![
        ("mp", |_| infrared::receiver().monotonic::<M>().protocol::<P>().build()),
        ("pm", |_| infrared::receiver().protocol::<P>().monotonic::<M>().build()),
    ]
}
pub fn rx_pfn<P>() -> Vec<(&'static str, fn(u32) -> Receiver<P, Pin>)>
where P: Pr {
    vec![
        ("Ffnp", |f| infrared::receiver().frequency(f / 2 + 1).frequency(f).pin(Pin::new(7)).protocol::<P>().build()),
        ("Ffpn", |f| infrared::receiver().frequency(f / 2 + 1).frequency(f).protocol::<P>().pin(Pin::new(7)).build()),
        ("Fnfp", |f| infrared::receiver().frequency(f / 2 + 1).pin(Pin::new(7)).frequency(f).protocol::<P>().build()),
        ("Fnpf", |f| infrared::receiver().frequency(f / 2 + 1).pin(Pin::new(7)).protocol::<P>().frequency(f).build()),
        ("Fpfn", |f| infrared::receiver().frequency(f / 2 + 1).protocol::<P>().frequency(f).pin(Pin::new(7)).build()),
        ("Fpnf", |f| infrared::receiver().frequency(f / 2 + 1).protocol::<P>().pin(Pin::new(7)).frequency(f).build()),
        ("Qfnp", |f| infrared::receiver().protocol::<Other>().frequency(f).pin(Pin::new(7)).protocol::<P>().build()),
        ("Qfpn", |f| infrared::receiver().protocol::<Other>().frequency(f).protocol::<P>().pin(Pin::new(7)).build()),
        ("Qnfp", |f| infrared::receiver().protocol::<Other>().pin(Pin::new(7)).frequency(f).protocol::<P>().build()),
        ("Qnpf", |f| infrared::receiver().protocol::<Other>().pin(Pin::new(7)).protocol::<P>().frequency(f).build()),
        ("Qpfn", |f| infrared::receiver().protocol::<Other>().protocol::<P>().frequency(f).pin(Pin::new(7)).build()),
        ("Qpnf", |f| infrared::receiver().protocol::<Other>().protocol::<P>().pin(Pin::new(7)).frequency(f).build()),
        ("Wfnp", |f| infrared::receiver().pin(Wrong).frequency(f).pin(Pin::new(7)).protocol::<P>().build()),
        ("Wfpn", |f| infrared::receiver().pin(Wrong).frequency(f).protocol::<P>().pin(Pin::new(7)).build()),
        ("Wnfp", |f| infrared::receiver().pin(Wrong).pin(Pin::new(7)).frequency(f).protocol::<P>().build()),
        ("Wnpf", |f| infrared::receiver().pin(Wrong).pin(Pin::new(7)).protocol::<P>().frequency(f).build()),
        ("Wpfn", |f| infrared::receiver().pin(Wrong).protocol::<P>().frequency(f).pin(Pin::new(7)).build()),
        ("Wpnf", |f| infrared::receiver().pin(Wrong).protocol::<P>().pin(Pin::new(7)).frequency(f).build()),
        ("fQnp", |f| infrared::receiver().frequency(f).protocol::<Other>().pin(Pin::new(7)).protocol::<P>().build()),
        ("fQpn", |f| infrared::receiver().frequency(f).protocol::<Other>().protocol::<P>().pin(Pin::new(7)).build()),
        ("fWnp", |f| infrared::receiver().frequency(f).pin(Wrong).pin(Pin::new(7)).protocol::<P>().build()),
        ("fWpn", |f| infrared::receiver().frequency(f).pin(Wrong).protocol::<P>().pin(Pin::new(7)).build()),
        ("fnQp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).protocol::<Other>().protocol::<P>().build()),
        ("fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).protocol::<P>().build()),
        ("fpWn", |f| infrared::receiver().frequency(f).protocol::<P>().pin(Wrong).pin(Pin::new(7)).build()),
        ("fpn", |f| infrared::receiver().frequency(f).protocol::<P>().pin(Pin::new(7)).build()),
        ("nFfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f / 2 + 1).frequency(f).protocol::<P>().build()),
        ("nFpf", |f| infrared::receiver().pin(Pin::new(7)).frequency(f / 2 + 1).protocol::<P>().frequency(f).build()),
        ("nQfp", |f| infrared::receiver().pin(Pin::new(7)).protocol::<Other>().frequency(f).protocol::<P>().build()),
        ("nQpf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<Other>().protocol::<P>().frequency(f).build()),
        ("nfQp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).protocol::<Other>().protocol::<P>().build()),
        ("nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).protocol::<P>().build()),
        ("npFf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().frequency(f / 2 + 1).frequency(f).build()),
        ("npf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().frequency(f).build()),
        ("pFfn", |f| infrared::receiver().protocol::<P>().frequency(f / 2 + 1).frequency(f).pin(Pin::new(7)).build()),
        ("pFnf", |f| infrared::receiver().protocol::<P>().frequency(f / 2 + 1).pin(Pin::new(7)).frequency(f).build()),
        ("pWfn", |f| infrared::receiver().protocol::<P>().pin(Wrong).frequency(f).pin(Pin::new(7)).build()),
        ("pWnf", |f| infrared::receiver().protocol::<P>().pin(Wrong).pin(Pin::new(7)).frequency(f).build()),
        ("pfWn", |f| infrared::receiver().protocol::<P>().frequency(f).pin(Wrong).pin(Pin::new(7)).build()),
        ("pfn", |f| infrared::receiver().protocol::<P>().frequency(f).pin(Pin::new(7)).build()),
        ("pnFf", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).frequency(f / 2 + 1).frequency(f).build()),
        ("pnf", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).frequency(f).build()),
    ]
}
pub fn rx_pn<P>() -> Vec<(&'static str, fn(u32) -> Receiver<P, Pin>)>
where P: Pr {
    vec![
        ("np", |_| infrared::receiver().pin(Pin::new(7)).protocol::<P>().build()),
        ("pn", |_| infrared::receiver().protocol::<P>().pin(Pin::new(7)).build()),
    ]
}
pub fn rx_pfmn<P, M>() -> Vec<(&'static str, fn(u32) -> Receiver<P, Pin, M, <P as Protocol>::Cmd>)>
where P: Pr + DecoderBuilder<M>, M: InfraMonotonic {
    vec![
        ("Ffmnp", |f| infrared::receiver().frequency(f / 2 + 1).frequency(f).monotonic::<M>().pin(Pin::new(7)).protocol::<P>().build()),
        ("Ffmpn", |f| infrared::receiver().frequency(f / 2 + 1).frequency(f).monotonic::<M>().protocol::<P>().pin(Pin::new(7)).build()),
        ("Ffnmp", |f| infrared::receiver().frequency(f / 2 + 1).frequency(f).pin(Pin::new(7)).monotonic::<M>().protocol::<P>().build()),
        ("Ffnpm", |f| infrared::receiver().frequency(f / 2 + 1).frequency(f).pin(Pin::new(7)).protocol::<P>().monotonic::<M>().build()),
        ("Ffpmn", |f| infrared::receiver().frequency(f / 2 + 1).frequency(f).protocol::<P>().monotonic::<M>().pin(Pin::new(7)).build()),
        ("Ffpnm", |f| infrared::receiver().frequency(f / 2 + 1).frequency(f).protocol::<P>().pin(Pin::new(7)).monotonic::<M>().build()),
        ("Fmfnp", |f| infrared::receiver().frequency(f / 2 + 1).monotonic::<M>().frequency(f).pin(Pin::new(7)).protocol::<P>().build()),
        ("Fmfpn", |f| infrared::receiver().frequency(f / 2 + 1).monotonic::<M>().frequency(f).protocol::<P>().pin(Pin::new(7)).build()),
        ("Fmnfp", |f| infrared::receiver().frequency(f / 2 + 1).monotonic::<M>().pin(Pin::new(7)).frequency(f).protocol::<P>().build()),
        ("Fmnpf", |f| infrared::receiver().frequency(f / 2 + 1).monotonic::<M>().pin(Pin::new(7)).protocol::<P>().frequency(f).build()),
        ("Fmpfn", |f| infrared::receiver().frequency(f / 2 + 1).monotonic::<M>().protocol::<P>().frequency(f).pin(Pin::new(7)).build()),
        ("Fmpnf", |f| infrared::receiver().frequency(f / 2 + 1).monotonic::<M>().protocol::<P>().pin(Pin::new(7)).frequency(f).build()),
        ("Fnfmp", |f| infrared::receiver().frequency(f / 2 + 1).pin(Pin::new(7)).frequency(f).monotonic::<M>().protocol::<P>().build()),
        ("Fnfpm", |f| infrared::receiver().frequency(f / 2 + 1).pin(Pin::new(7)).frequency(f).protocol::<P>().monotonic::<M>().build()),
        ("Fnmfp", |f| infrared::receiver().frequency(f / 2 + 1).pin(Pin::new(7)).monotonic::<M>().frequency(f).protocol::<P>().build()),
        ("Fnmpf", |f| infrared::receiver().frequency(f / 2 + 1).pin(Pin::new(7)).monotonic::<M>().protocol::<P>().frequency(f).build()),
        ("Fnpfm", |f| infrared::receiver().frequency(f / 2 + 1).pin(Pin::new(7)).protocol::<P>().frequency(f).monotonic::<M>().build()),
        ("Fnpmf", |f| infrared::receiver().frequency(f / 2 + 1).pin(Pin::new(7)).protocol::<P>().monotonic::<M>().frequency(f).build()),
        ("Fpfmn", |f| infrared::receiver().frequency(f / 2 + 1).protocol::<P>().frequency(f).monotonic::<M>().pin(Pin::new(7)).build()),
        ("Fpfnm", |f| infrared::receiver().frequency(f / 2 + 1).protocol::<P>().frequency(f).pin(Pin::new(7)).monotonic::<M>().build()),
        ("Fpmfn", |f| infrared::receiver().frequency(f / 2 + 1).protocol::<P>().monotonic::<M>().frequency(f).pin(Pin::new(7)).build()),
        ("Fpmnf", |f| infrared::receiver().frequency(f / 2 + 1).protocol::<P>().monotonic::<M>().pin(Pin::new(7)).frequency(f).build()),
        ("Fpnfm", |f| infrared::receiver().frequency(f / 2 + 1).protocol::<P>().pin(Pin::new(7)).frequency(f).monotonic::<M>().build()),
        ("Fpnmf", |f| infrared::receiver().frequency(f / 2 + 1).protocol::<P>().pin(Pin::new(7)).monotonic::<M>().frequency(f).build()),
        ("Mfmnp", |f| infrared::receiver().monotonic::<u64>().frequency(f).monotonic::<M>().pin(Pin::new(7)).protocol::<P>().build()),
        ("Mfmpn", |f| infrared::receiver().monotonic::<u64>().frequency(f).monotonic::<M>().protocol::<P>().pin(Pin::new(7)).build()),
        ("Mfnmp", |f| infrared::receiver().monotonic::<u64>().frequency(f).pin(Pin::new(7)).monotonic::<M>().protocol::<P>().build()),
        ("Mfnpm", |f| infrared::receiver().monotonic::<u64>().frequency(f).pin(Pin::new(7)).protocol::<P>().monotonic::<M>().build()),
        ("Mfpmn", |f| infrared::receiver().monotonic::<u64>().frequency(f).protocol::<P>().monotonic::<M>().pin(Pin::new(7)).build()),
        ("Mfpnm", |f| infrared::receiver().monotonic::<u64>().frequency(f).protocol::<P>().pin(Pin::new(7)).monotonic::<M>().build()),
        ("Mmfnp", |f| infrared::receiver().monotonic::<u64>().monotonic::<M>().frequency(f).pin(Pin::new(7)).protocol::<P>().build()),
        ("Mmfpn", |f| infrared::receiver().monotonic::<u64>().monotonic::<M>().frequency(f).protocol::<P>().pin(Pin::new(7)).build()),
        ("Mmnfp", |f| infrared::receiver().monotonic::<u64>().monotonic::<M>().pin(Pin::new(7)).frequency(f).protocol::<P>().build()),
        ("Mmnpf", |f| infrared::receiver().monotonic::<u64>().monotonic::<M>().pin(Pin::new(7)).protocol::<P>().frequency(f).build()),
        ("Mmpfn", |f| infrared::receiver().monotonic::<u64>().monotonic::<M>().protocol::<P>().frequency(f).pin(Pin::new(7)).build()),
        ("Mmpnf", |f| infrared::receiver().monotonic::<u64>().monotonic::<M>().protocol::<P>().pin(Pin::new(7)).frequency(f).build()),
        ("Mnfmp", |f| infrared::receiver().monotonic::<u64>().pin(Pin::new(7)).frequency(f).monotonic::<M>().protocol::<P>().build()),
        ("Mnfpm", |f| infrared::receiver().monotonic::<u64>().pin(Pin::new(7)).frequency(f).protocol::<P>().monotonic::<M>().build()),
        ("Mnmfp", |f| infrared::receiver().monotonic::<u64>().pin(Pin::new(7)).monotonic::<M>().frequency(f).protocol::<P>().build()),
        ("Mnmpf", |f| infrared::receiver().monotonic::<u64>().pin(Pin::new(7)).monotonic::<M>().protocol::<P>().frequency(f).build()),
        ("Mnpfm", |f| infrared::receiver().monotonic::<u64>().pin(Pin::new(7)).protocol::<P>().frequency(f).monotonic::<M>().build()),
        ("Mnpmf", |f| infrared::receiver().monotonic::<u64>().pin(Pin::new(7)).protocol::<P>().monotonic::<M>().frequency(f).build()),
        ("Mpfmn", |f| infrared::receiver().monotonic::<u64>().protocol::<P>().frequency(f).monotonic::<M>().pin(Pin::new(7)).build()),
        ("Mpfnm", |f| infrared::receiver().monotonic::<u64>().protocol::<P>().frequency(f).pin(Pin::new(7)).monotonic::<M>().build()),
        ("Mpmfn", |f| infrared::receiver().monotonic::<u64>().protocol::<P>().monotonic::<M>().frequency(f).pin(Pin::new(7)).build()),
        ("Mpmnf", |f| infrared::receiver().monotonic::<u64>().protocol::<P>().monotonic::<M>().pin(Pin::new(7)).frequency(f).build()),
        ("Mpnfm", |f| infrared::receiver().monotonic::<u64>().protocol::<P>().pin(Pin::new(7)).frequency(f).monotonic::<M>().build()),
        ("Mpnmf", |f| infrared::receiver().monotonic::<u64>().protocol::<P>().pin(Pin::new(7)).monotonic::<M>().frequency(f).build()),
        ("Qfmnp", |f| infrared::receiver().protocol::<Other>().frequency(f).monotonic::<M>().pin(Pin::new(7)).protocol::<P>().build()),
        ("Qfmpn", |f| infrared::receiver().protocol::<Other>().frequency(f).monotonic::<M>().protocol::<P>().pin(Pin::new(7)).build()),
        ("Qfnmp", |f| infrared::receiver().protocol::<Other>().frequency(f).pin(Pin::new(7)).monotonic::<M>().protocol::<P>().build()),
        ("Qfnpm", |f| infrared::receiver().protocol::<Other>().frequency(f).pin(Pin::new(7)).protocol::<P>().monotonic::<M>().build()),
        ("Qfpmn", |f| infrared::receiver().protocol::<Other>().frequency(f).protocol::<P>().monotonic::<M>().pin(Pin::new(7)).build()),
        ("Qfpnm", |f| infrared::receiver().protocol::<Other>().frequency(f).protocol::<P>().pin(Pin::new(7)).monotonic::<M>().build()),
        ("Qmfnp", |f| infrared::receiver().protocol::<Other>().monotonic::<M>().frequency(f).pin(Pin::new(7)).protocol::<P>().build()),
        ("Qmfpn", |f| infrared::receiver().protocol::<Other>().monotonic::<M>().frequency(f).protocol::<P>().pin(Pin::new(7)).build()),
        ("Qmnfp", |f| infrared::receiver().protocol::<Other>().monotonic::<M>().pin(Pin::new(7)).frequency(f).protocol::<P>().build()),
        ("Qmnpf", |f| infrared::receiver().protocol::<Other>().monotonic::<M>().pin(Pin::new(7)).protocol::<P>().frequency(f).build()),
        ("Qmpfn", |f| infrared::receiver().protocol::<Other>().monotonic::<M>().protocol::<P>().frequency(f).pin(Pin::new(7)).build()),
        ("Qmpnf", |f| infrared::receiver().protocol::<Other>().monotonic::<M>().protocol::<P>().pin(Pin::new(7)).frequency(f).build()),
        ("Qnfmp", |f| infrared::receiver().protocol::<Other>().pin(Pin::new(7)).frequency(f).monotonic::<M>().protocol::<P>().build()),
        ("Qnfpm", |f| infrared::receiver().protocol::<Other>().pin(Pin::new(7)).frequency(f).protocol::<P>().monotonic::<M>().build()),
        ("Qnmfp", |f| infrared::receiver().protocol::<Other>().pin(Pin::new(7)).monotonic::<M>().frequency(f).protocol::<P>().build()),
        ("Qnmpf", |f| infrared::receiver().protocol::<Other>().pin(Pin::new(7)).monotonic::<M>().protocol::<P>().frequency(f).build()),
        ("Qnpfm", |f| infrared::receiver().protocol::<Other>().pin(Pin::new(7)).protocol::<P>().frequency(f).monotonic::<M>().build()),
        ("Qnpmf", |f| infrared::receiver().protocol::<Other>().pin(Pin::new(7)).protocol::<P>().monotonic::<M>().frequency(f).build()),
        ("Qpfmn", |f| infrared::receiver().protocol::<Other>().protocol::<P>().frequency(f).monotonic::<M>().pin(Pin::new(7)).build()),
        ("Qpfnm", |f| infrared::receiver().protocol::<Other>().protocol::<P>().frequency(f).pin(Pin::new(7)).monotonic::<M>().build()),
        ("Qpmfn", |f| infrared::receiver().protocol::<Other>().protocol::<P>().monotonic::<M>().frequency(f).pin(Pin::new(7)).build()),
        ("Qpmnf", |f| infrared::receiver().protocol::<Other>().protocol::<P>().monotonic::<M>().pin(Pin::new(7)).frequency(f).build()),
        ("Qpnfm", |f| infrared::receiver().protocol::<Other>().protocol::<P>().pin(Pin::new(7)).frequency(f).monotonic::<M>().build()),
        ("Qpnmf", |f| infrared::receiver().protocol::<Other>().protocol::<P>().pin(Pin::new(7)).monotonic::<M>().frequency(f).build()),
        ("Wfmnp", |f| infrared::receiver().pin(Wrong).frequency(f).monotonic::<M>().pin(Pin::new(7)).protocol::<P>().build()),
        ("Wfmpn", |f| infrared::receiver().pin(Wrong).frequency(f).monotonic::<M>().protocol::<P>().pin(Pin::new(7)).build()),
        ("Wfnmp", |f| infrared::receiver().pin(Wrong).frequency(f).pin(Pin::new(7)).monotonic::<M>().protocol::<P>().build()),
        ("Wfnpm", |f| infrared::receiver().pin(Wrong).frequency(f).pin(Pin::new(7)).protocol::<P>().monotonic::<M>().build()),
        ("Wfpmn", |f| infrared::receiver().pin(Wrong).frequency(f).protocol::<P>().monotonic::<M>().pin(Pin::new(7)).build()),
        ("Wfpnm", |f| infrared::receiver().pin(Wrong).frequency(f).protocol::<P>().pin(Pin::new(7)).monotonic::<M>().build()),
        ("Wmfnp", |f| infrared::receiver().pin(Wrong).monotonic::<M>().frequency(f).pin(Pin::new(7)).protocol::<P>().build()),
        ("Wmfpn", |f| infrared::receiver().pin(Wrong).monotonic::<M>().frequency(f).protocol::<P>().pin(Pin::new(7)).build()),
        ("Wmnfp", |f| infrared::receiver().pin(Wrong).monotonic::<M>().pin(Pin::new(7)).frequency(f).protocol::<P>().build()),
        ("Wmnpf", |f| infrared::receiver().pin(Wrong).monotonic::<M>().pin(Pin::new(7)).protocol::<P>().frequency(f).build()),
        ("Wmpfn", |f| infrared::receiver().pin(Wrong).monotonic::<M>().protocol::<P>().frequency(f).pin(Pin::new(7)).build()),
        ("Wmpnf", |f| infrared::receiver().pin(Wrong).monotonic::<M>().protocol::<P>().pin(Pin::new(7)).frequency(f).build()),
        ("Wnfmp", |f| infrared::receiver().pin(Wrong).pin(Pin::new(7)).frequency(f).monotonic::<M>().protocol::<P>().build()),
        ("Wnfpm", |f| infrared::receiver().pin(Wrong).pin(Pin::new(7)).frequency(f).protocol::<P>().monotonic::<M>().build()),
        ("Wnmfp", |f| infrared::receiver().pin(Wrong).pin(Pin::new(7)).monotonic::<M>().frequency(f).protocol::<P>().build()),
        ("Wnmpf", |f| infrared::receiver().pin(Wrong).pin(Pin::new(7)).monotonic::<M>().protocol::<P>().frequency(f).build()),
        ("Wnpfm", |f| infrared::receiver().pin(Wrong).pin(Pin::new(7)).protocol::<P>().frequency(f).monotonic::<M>().build()),
        ("Wnpmf", |f| infrared::receiver().pin(Wrong).pin(Pin::new(7)).protocol::<P>().monotonic::<M>().frequency(f).build()),
        ("Wpfmn", |f| infrared::receiver().pin(Wrong).protocol::<P>().frequency(f).monotonic::<M>().pin(Pin::new(7)).build()),
        ("Wpfnm", |f| infrared::receiver().pin(Wrong).protocol::<P>().frequency(f).pin(Pin::new(7)).monotonic::<M>().build()),
        ("Wpmfn", |f| infrared::receiver().pin(Wrong).protocol::<P>().monotonic::<M>().frequency(f).pin(Pin::new(7)).build()),
        ("Wpmnf", |f| infrared::receiver().pin(Wrong).protocol::<P>().monotonic::<M>().pin(Pin::new(7)).frequency(f).build()),
        ("Wpnfm", |f| infrared::receiver().pin(Wrong).protocol::<P>().pin(Pin::new(7)).frequency(f).monotonic::<M>().build()),
        ("Wpnmf", |f| infrared::receiver().pin(Wrong).protocol::<P>().pin(Pin::new(7)).monotonic::<M>().frequency(f).build()),
        ("fMmnp", |f| infrared::receiver().frequency(f).monotonic::<u64>().monotonic::<M>().pin(Pin::new(7)).protocol::<P>().build()),
        ("fMmpn", |f| infrared::receiver().frequency(f).monotonic::<u64>().monotonic::<M>().protocol::<P>().pin(Pin::new(7)).build()),
        ("fMnmp", |f| infrared::receiver().frequency(f).monotonic::<u64>().pin(Pin::new(7)).monotonic::<M>().protocol::<P>().build()),
        ("fMnpm", |f| infrared::receiver().frequency(f).monotonic::<u64>().pin(Pin::new(7)).protocol::<P>().monotonic::<M>().build()),
        ("fMpmn", |f| infrared::receiver().frequency(f).monotonic::<u64>().protocol::<P>().monotonic::<M>().pin(Pin::new(7)).build()),
        ("fMpnm", |f| infrared::receiver().frequency(f).monotonic::<u64>().protocol::<P>().pin(Pin::new(7)).monotonic::<M>().build()),
        ("fQmnp", |f| infrared::receiver().frequency(f).protocol::<Other>().monotonic::<M>().pin(Pin::new(7)).protocol::<P>().build()),
        ("fQmpn", |f| infrared::receiver().frequency(f).protocol::<Other>().monotonic::<M>().protocol::<P>().pin(Pin::new(7)).build()),
        ("fQnmp", |f| infrared::receiver().frequency(f).protocol::<Other>().pin(Pin::new(7)).monotonic::<M>().protocol::<P>().build()),
        ("fQnpm", |f| infrared::receiver().frequency(f).protocol::<Other>().pin(Pin::new(7)).protocol::<P>().monotonic::<M>().build()),
        ("fQpmn", |f| infrared::receiver().frequency(f).protocol::<Other>().protocol::<P>().monotonic::<M>().pin(Pin::new(7)).build()),
        ("fQpnm", |f| infrared::receiver().frequency(f).protocol::<Other>().protocol::<P>().pin(Pin::new(7)).monotonic::<M>().build()),
        ("fWmnp", |f| infrared::receiver().frequency(f).pin(Wrong).monotonic::<M>().pin(Pin::new(7)).protocol::<P>().build()),
        ("fWmpn", |f| infrared::receiver().frequency(f).pin(Wrong).monotonic::<M>().protocol::<P>().pin(Pin::new(7)).build()),
        ("fWnmp", |f| infrared::receiver().frequency(f).pin(Wrong).pin(Pin::new(7)).monotonic::<M>().protocol::<P>().build()),
        ("fWnpm", |f| infrared::receiver().frequency(f).pin(Wrong).pin(Pin::new(7)).protocol::<P>().monotonic::<M>().build()),
        ("fWpmn", |f| infrared::receiver().frequency(f).pin(Wrong).protocol::<P>().monotonic::<M>().pin(Pin::new(7)).build()),
        ("fWpnm", |f| infrared::receiver().frequency(f).pin(Wrong).protocol::<P>().pin(Pin::new(7)).monotonic::<M>().build()),
        ("fmQnp", |f| infrared::receiver().frequency(f).monotonic::<M>().protocol::<Other>().pin(Pin::new(7)).protocol::<P>().build()),
        ("fmQpn", |f| infrared::receiver().frequency(f).monotonic::<M>().protocol::<Other>().protocol::<P>().pin(Pin::new(7)).build()),
        ("fmWnp", |f| infrared::receiver().frequency(f).monotonic::<M>().pin(Wrong).pin(Pin::new(7)).protocol::<P>().build()),
        ("fmWpn", |f| infrared::receiver().frequency(f).monotonic::<M>().pin(Wrong).protocol::<P>().pin(Pin::new(7)).build()),
        ("fmnQp", |f| infrared::receiver().frequency(f).monotonic::<M>().pin(Pin::new(7)).protocol::<Other>().protocol::<P>().build()),
        ("fmnp", |f| infrared::receiver().frequency(f).monotonic::<M>().pin(Pin::new(7)).protocol::<P>().build()),
        ("fmpWn", |f| infrared::receiver().frequency(f).monotonic::<M>().protocol::<P>().pin(Wrong).pin(Pin::new(7)).build()),
        ("fmpn", |f| infrared::receiver().frequency(f).monotonic::<M>().protocol::<P>().pin(Pin::new(7)).build()),
        ("fnMmp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).monotonic::<u64>().monotonic::<M>().protocol::<P>().build()),
        ("fnMpm", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).monotonic::<u64>().protocol::<P>().monotonic::<M>().build()),
        ("fnQmp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).protocol::<Other>().monotonic::<M>().protocol::<P>().build()),
        ("fnQpm", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).protocol::<Other>().protocol::<P>().monotonic::<M>().build()),
        ("fnmQp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).monotonic::<M>().protocol::<Other>().protocol::<P>().build()),
        ("fnmp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).monotonic::<M>().protocol::<P>().build()),
        ("fnpMm", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).protocol::<P>().monotonic::<u64>().monotonic::<M>().build()),
        ("fnpm", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).protocol::<P>().monotonic::<M>().build()),
        ("fpMmn", |f| infrared::receiver().frequency(f).protocol::<P>().monotonic::<u64>().monotonic::<M>().pin(Pin::new(7)).build()),
        ("fpMnm", |f| infrared::receiver().frequency(f).protocol::<P>().monotonic::<u64>().pin(Pin::new(7)).monotonic::<M>().build()),
        ("fpWmn", |f| infrared::receiver().frequency(f).protocol::<P>().pin(Wrong).monotonic::<M>().pin(Pin::new(7)).build()),
        ("fpWnm", |f| infrared::receiver().frequency(f).protocol::<P>().pin(Wrong).pin(Pin::new(7)).monotonic::<M>().build()),
        ("fpmWn", |f| infrared::receiver().frequency(f).protocol::<P>().monotonic::<M>().pin(Wrong).pin(Pin::new(7)).build()),
        ("fpmn", |f| infrared::receiver().frequency(f).protocol::<P>().monotonic::<M>().pin(Pin::new(7)).build()),
        ("fpnMm", |f| infrared::receiver().frequency(f).protocol::<P>().pin(Pin::new(7)).monotonic::<u64>().monotonic::<M>().build()),
        ("fpnm", |f| infrared::receiver().frequency(f).protocol::<P>().pin(Pin::new(7)).monotonic::<M>().build()),
        ("mFfnp", |f| infrared::receiver().monotonic::<M>().frequency(f / 2 + 1).frequency(f).pin(Pin::new(7)).protocol::<P>().build()),
        ("mFfpn", |f| infrared::receiver().monotonic::<M>().frequency(f / 2 + 1).frequency(f).protocol::<P>().pin(Pin::new(7)).build()),
        ("mFnfp", |f| infrared::receiver().monotonic::<M>().frequency(f / 2 + 1).pin(Pin::new(7)).frequency(f).protocol::<P>().build()),
        ("mFnpf", |f| infrared::receiver().monotonic::<M>().frequency(f / 2 + 1).pin(Pin::new(7)).protocol::<P>().frequency(f).build()),
        ("mFpfn", |f| infrared::receiver().monotonic::<M>().frequency(f / 2 + 1).protocol::<P>().frequency(f).pin(Pin::new(7)).build()),
        ("mFpnf", |f| infrared::receiver().monotonic::<M>().frequency(f / 2 + 1).protocol::<P>().pin(Pin::new(7)).frequency(f).build()),
        ("mQfnp", |f| infrared::receiver().monotonic::<M>().protocol::<Other>().frequency(f).pin(Pin::new(7)).protocol::<P>().build()),
        ("mQfpn", |f| infrared::receiver().monotonic::<M>().protocol::<Other>().frequency(f).protocol::<P>().pin(Pin::new(7)).build()),
        ("mQnfp", |f| infrared::receiver().monotonic::<M>().protocol::<Other>().pin(Pin::new(7)).frequency(f).protocol::<P>().build()),
        ("mQnpf", |f| infrared::receiver().monotonic::<M>().protocol::<Other>().pin(Pin::new(7)).protocol::<P>().frequency(f).build()),
        ("mQpfn", |f| infrared::receiver().monotonic::<M>().protocol::<Other>().protocol::<P>().frequency(f).pin(Pin::new(7)).build()),
        ("mQpnf", |f| infrared::receiver().monotonic::<M>().protocol::<Other>().protocol::<P>().pin(Pin::new(7)).frequency(f).build()),
        ("mWfnp", |f| infrared::receiver().monotonic::<M>().pin(Wrong).frequency(f).pin(Pin::new(7)).protocol::<P>().build()),
        ("mWfpn", |f| infrared::receiver().monotonic::<M>().pin(Wrong).frequency(f).protocol::<P>().pin(Pin::new(7)).build()),
        ("mWnfp", |f| infrared::receiver().monotonic::<M>().pin(Wrong).pin(Pin::new(7)).frequency(f).protocol::<P>().build()),
        ("mWnpf", |f| infrared::receiver().monotonic::<M>().pin(Wrong).pin(Pin::new(7)).protocol::<P>().frequency(f).build()),
        ("mWpfn", |f| infrared::receiver().monotonic::<M>().pin(Wrong).protocol::<P>().frequency(f).pin(Pin::new(7)).build()),
        ("mWpnf", |f| infrared::receiver().monotonic::<M>().pin(Wrong).protocol::<P>().pin(Pin::new(7)).frequency(f).build()),
        ("mfQnp", |f| infrared::receiver().monotonic::<M>().frequency(f).protocol::<Other>().pin(Pin::new(7)).protocol::<P>().build()),
        ("mfQpn", |f| infrared::receiver().monotonic::<M>().frequency(f).protocol::<Other>().protocol::<P>().pin(Pin::new(7)).build()),
        ("mfWnp", |f| infrared::receiver().monotonic::<M>().frequency(f).pin(Wrong).pin(Pin::new(7)).protocol::<P>().build()),
        ("mfWpn", |f| infrared::receiver().monotonic::<M>().frequency(f).pin(Wrong).protocol::<P>().pin(Pin::new(7)).build()),
        ("mfnQp", |f| infrared::receiver().monotonic::<M>().frequency(f).pin(Pin::new(7)).protocol::<Other>().protocol::<P>().build()),
        ("mfnp", |f| infrared::receiver().monotonic::<M>().frequency(f).pin(Pin::new(7)).protocol::<P>().build()),
        ("mfpWn", |f| infrared::receiver().monotonic::<M>().frequency(f).protocol::<P>().pin(Wrong).pin(Pin::new(7)).build()),
        ("mfpn", |f| infrared::receiver().monotonic::<M>().frequency(f).protocol::<P>().pin(Pin::new(7)).build()),
        ("mnFfp", |f| infrared::receiver().monotonic::<M>().pin(Pin::new(7)).frequency(f / 2 + 1).frequency(f).protocol::<P>().build()),
        ("mnFpf", |f| infrared::receiver().monotonic::<M>().pin(Pin::new(7)).frequency(f / 2 + 1).protocol::<P>().frequency(f).build()),
        ("mnQfp", |f| infrared::receiver().monotonic::<M>().pin(Pin::new(7)).protocol::<Other>().frequency(f).protocol::<P>().build()),
        ("mnQpf", |f| infrared::receiver().monotonic::<M>().pin(Pin::new(7)).protocol::<Other>().protocol::<P>().frequency(f).build()),
        ("mnfQp", |f| infrared::receiver().monotonic::<M>().pin(Pin::new(7)).frequency(f).protocol::<Other>().protocol::<P>().build()),
        ("mnfp", |f| infrared::receiver().monotonic::<M>().pin(Pin::new(7)).frequency(f).protocol::<P>().build()),
        ("mnpFf", |f| infrared::receiver().monotonic::<M>().pin(Pin::new(7)).protocol::<P>().frequency(f / 2 + 1).frequency(f).build()),
        ("mnpf", |f| infrared::receiver().monotonic::<M>().pin(Pin::new(7)).protocol::<P>().frequency(f).build()),
        ("mpFfn", |f| infrared::receiver().monotonic::<M>().protocol::<P>().frequency(f / 2 + 1).frequency(f).pin(Pin::new(7)).build()),
        ("mpFnf", |f| infrared::receiver().monotonic::<M>().protocol::<P>().frequency(f / 2 + 1).pin(Pin::new(7)).frequency(f).build()),
        ("mpWfn", |f| infrared::receiver().monotonic::<M>().protocol::<P>().pin(Wrong).frequency(f).pin(Pin::new(7)).build()),
        ("mpWnf", |f| infrared::receiver().monotonic::<M>().protocol::<P>().pin(Wrong).pin(Pin::new(7)).frequency(f).build()),
        ("mpfWn", |f| infrared::receiver().monotonic::<M>().protocol::<P>().frequency(f).pin(Wrong).pin(Pin::new(7)).build()),
        ("mpfn", |f| infrared::receiver().monotonic::<M>().protocol::<P>().frequency(f).pin(Pin::new(7)).build()),
        ("mpnFf", |f| infrared::receiver().monotonic::<M>().protocol::<P>().pin(Pin::new(7)).frequency(f / 2 + 1).frequency(f).build()),
        ("mpnf", |f| infrared::receiver().monotonic::<M>().protocol::<P>().pin(Pin::new(7)).frequency(f).build()),
        ("nFfmp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f / 2 + 1).frequency(f).monotonic::<M>().protocol::<P>().build()),
        ("nFfpm", |f| infrared::receiver().pin(Pin::new(7)).frequency(f / 2 + 1).frequency(f).protocol::<P>().monotonic::<M>().build()),
        ("nFmfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f / 2 + 1).monotonic::<M>().frequency(f).protocol::<P>().build()),
        ("nFmpf", |f| infrared::receiver().pin(Pin::new(7)).frequency(f / 2 + 1).monotonic::<M>().protocol::<P>().frequency(f).build()),
        ("nFpfm", |f| infrared::receiver().pin(Pin::new(7)).frequency(f / 2 + 1).protocol::<P>().frequency(f).monotonic::<M>().build()),
        ("nFpmf", |f| infrared::receiver().pin(Pin::new(7)).frequency(f / 2 + 1).protocol::<P>().monotonic::<M>().frequency(f).build()),
        ("nMfmp", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<u64>().frequency(f).monotonic::<M>().protocol::<P>().build()),
        ("nMfpm", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<u64>().frequency(f).protocol::<P>().monotonic::<M>().build()),
        ("nMmfp", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<u64>().monotonic::<M>().frequency(f).protocol::<P>().build()),
        ("nMmpf", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<u64>().monotonic::<M>().protocol::<P>().frequency(f).build()),
        ("nMpfm", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<u64>().protocol::<P>().frequency(f).monotonic::<M>().build()),
        ("nMpmf", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<u64>().protocol::<P>().monotonic::<M>().frequency(f).build()),
        ("nQfmp", |f| infrared::receiver().pin(Pin::new(7)).protocol::<Other>().frequency(f).monotonic::<M>().protocol::<P>().build()),
        ("nQfpm", |f| infrared::receiver().pin(Pin::new(7)).protocol::<Other>().frequency(f).protocol::<P>().monotonic::<M>().build()),
        ("nQmfp", |f| infrared::receiver().pin(Pin::new(7)).protocol::<Other>().monotonic::<M>().frequency(f).protocol::<P>().build()),
        ("nQmpf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<Other>().monotonic::<M>().protocol::<P>().frequency(f).build()),
        ("nQpfm", |f| infrared::receiver().pin(Pin::new(7)).protocol::<Other>().protocol::<P>().frequency(f).monotonic::<M>().build()),
        ("nQpmf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<Other>().protocol::<P>().monotonic::<M>().frequency(f).build()),
        ("nfMmp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).monotonic::<u64>().monotonic::<M>().protocol::<P>().build()),
        ("nfMpm", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).monotonic::<u64>().protocol::<P>().monotonic::<M>().build()),
        ("nfQmp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).protocol::<Other>().monotonic::<M>().protocol::<P>().build()),
        ("nfQpm", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).protocol::<Other>().protocol::<P>().monotonic::<M>().build()),
        ("nfmQp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).monotonic::<M>().protocol::<Other>().protocol::<P>().build()),
        ("nfmp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).monotonic::<M>().protocol::<P>().build()),
        ("nfpMm", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).protocol::<P>().monotonic::<u64>().monotonic::<M>().build()),
        ("nfpm", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).protocol::<P>().monotonic::<M>().build()),
        ("nmFfp", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<M>().frequency(f / 2 + 1).frequency(f).protocol::<P>().build()),
        ("nmFpf", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<M>().frequency(f / 2 + 1).protocol::<P>().frequency(f).build()),
        ("nmQfp", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<M>().protocol::<Other>().frequency(f).protocol::<P>().build()),
        ("nmQpf", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<M>().protocol::<Other>().protocol::<P>().frequency(f).build()),
        ("nmfQp", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<M>().frequency(f).protocol::<Other>().protocol::<P>().build()),
        ("nmfp", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<M>().frequency(f).protocol::<P>().build()),
        ("nmpFf", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<M>().protocol::<P>().frequency(f / 2 + 1).frequency(f).build()),
        ("nmpf", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<M>().protocol::<P>().frequency(f).build()),
        ("npFfm", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().frequency(f / 2 + 1).frequency(f).monotonic::<M>().build()),
        ("npFmf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().frequency(f / 2 + 1).monotonic::<M>().frequency(f).build()),
        ("npMfm", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().monotonic::<u64>().frequency(f).monotonic::<M>().build()),
        ("npMmf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().monotonic::<u64>().monotonic::<M>().frequency(f).build()),
        ("npfMm", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().frequency(f).monotonic::<u64>().monotonic::<M>().build()),
        ("npfm", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().frequency(f).monotonic::<M>().build()),
        ("npmFf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().monotonic::<M>().frequency(f / 2 + 1).frequency(f).build()),
        ("npmf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().monotonic::<M>().frequency(f).build()),
        ("pFfmn", |f| infrared::receiver().protocol::<P>().frequency(f / 2 + 1).frequency(f).monotonic::<M>().pin(Pin::new(7)).build()),
        ("pFfnm", |f| infrared::receiver().protocol::<P>().frequency(f / 2 + 1).frequency(f).pin(Pin::new(7)).monotonic::<M>().build()),
        ("pFmfn", |f| infrared::receiver().protocol::<P>().frequency(f / 2 + 1).monotonic::<M>().frequency(f).pin(Pin::new(7)).build()),
        ("pFmnf", |f| infrared::receiver().protocol::<P>().frequency(f / 2 + 1).monotonic::<M>().pin(Pin::new(7)).frequency(f).build()),
        ("pFnfm", |f| infrared::receiver().protocol::<P>().frequency(f / 2 + 1).pin(Pin::new(7)).frequency(f).monotonic::<M>().build()),
        ("pFnmf", |f| infrared::receiver().protocol::<P>().frequency(f / 2 + 1).pin(Pin::new(7)).monotonic::<M>().frequency(f).build()),
        ("pMfmn", |f| infrared::receiver().protocol::<P>().monotonic::<u64>().frequency(f).monotonic::<M>().pin(Pin::new(7)).build()),
        ("pMfnm", |f| infrared::receiver().protocol::<P>().monotonic::<u64>().frequency(f).pin(Pin::new(7)).monotonic::<M>().build()),
        ("pMmfn", |f| infrared::receiver().protocol::<P>().monotonic::<u64>().monotonic::<M>().frequency(f).pin(Pin::new(7)).build()),
        ("pMmnf", |f| infrared::receiver().protocol::<P>().monotonic::<u64>().monotonic::<M>().pin(Pin::new(7)).frequency(f).build()),
        ("pMnfm", |f| infrared::receiver().protocol::<P>().monotonic::<u64>().pin(Pin::new(7)).frequency(f).monotonic::<M>().build()),
        ("pMnmf", |f| infrared::receiver().protocol::<P>().monotonic::<u64>().pin(Pin::new(7)).monotonic::<M>().frequency(f).build()),
        ("pWfmn", |f| infrared::receiver().protocol::<P>().pin(Wrong).frequency(f).monotonic::<M>().pin(Pin::new(7)).build()),
        ("pWfnm", |f| infrared::receiver().protocol::<P>().pin(Wrong).frequency(f).pin(Pin::new(7)).monotonic::<M>().build()),
        ("pWmfn", |f| infrared::receiver().protocol::<P>().pin(Wrong).monotonic::<M>().frequency(f).pin(Pin::new(7)).build()),
        ("pWmnf", |f| infrared::receiver().protocol::<P>().pin(Wrong).monotonic::<M>().pin(Pin::new(7)).frequency(f).build()),
        ("pWnfm", |f| infrared::receiver().protocol::<P>().pin(Wrong).pin(Pin::new(7)).frequency(f).monotonic::<M>().build()),
        ("pWnmf", |f| infrared::receiver().protocol::<P>().pin(Wrong).pin(Pin::new(7)).monotonic::<M>().frequency(f).build()),
        ("pfMmn", |f| infrared::receiver().protocol::<P>().frequency(f).monotonic::<u64>().monotonic::<M>().pin(Pin::new(7)).build()),
        ("pfMnm", |f| infrared::receiver().protocol::<P>().frequency(f).monotonic::<u64>().pin(Pin::new(7)).monotonic::<M>().build()),
        ("pfWmn", |f| infrared::receiver().protocol::<P>().frequency(f).pin(Wrong).monotonic::<M>().pin(Pin::new(7)).build()),
        ("pfWnm", |f| infrared::receiver().protocol::<P>().frequency(f).pin(Wrong).pin(Pin::new(7)).monotonic::<M>().build()),
        ("pfmWn", |f| infrared::receiver().protocol::<P>().frequency(f).monotonic::<M>().pin(Wrong).pin(Pin::new(7)).build()),
        ("pfmn", |f| infrared::receiver().protocol::<P>().frequency(f).monotonic::<M>().pin(Pin::new(7)).build()),
        ("pfnMm", |f| infrared::receiver().protocol::<P>().frequency(f).pin(Pin::new(7)).monotonic::<u64>().monotonic::<M>().build()),
        ("pfnm", |f| infrared::receiver().protocol::<P>().frequency(f).pin(Pin::new(7)).monotonic::<M>().build()),
        ("pmFfn", |f| infrared::receiver().protocol::<P>().monotonic::<M>().frequency(f / 2 + 1).frequency(f).pin(Pin::new(7)).build()),
        ("pmFnf", |f| infrared::receiver().protocol::<P>().monotonic::<M>().frequency(f / 2 + 1).pin(Pin::new(7)).frequency(f).build()),
        ("pmWfn", |f| infrared::receiver().protocol::<P>().monotonic::<M>().pin(Wrong).frequency(f).pin(Pin::new(7)).build()),
        ("pmWnf", |f| infrared::receiver().protocol::<P>().monotonic::<M>().pin(Wrong).pin(Pin::new(7)).frequency(f).build()),
        ("pmfWn", |f| infrared::receiver().protocol::<P>().monotonic::<M>().frequency(f).pin(Wrong).pin(Pin::new(7)).build()),
        ("pmfn", |f| infrared::receiver().protocol::<P>().monotonic::<M>().frequency(f).pin(Pin::new(7)).build()),
        ("pmnFf", |f| infrared::receiver().protocol::<P>().monotonic::<M>().pin(Pin::new(7)).frequency(f / 2 + 1).frequency(f).build()),
        ("pmnf", |f| infrared::receiver().protocol::<P>().monotonic::<M>().pin(Pin::new(7)).frequency(f).build()),
        ("pnFfm", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).frequency(f / 2 + 1).frequency(f).monotonic::<M>().build()),
        ("pnFmf", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).frequency(f / 2 + 1).monotonic::<M>().frequency(f).build()),
        ("pnMfm", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).monotonic::<u64>().frequency(f).monotonic::<M>().build()),
        ("pnMmf", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).monotonic::<u64>().monotonic::<M>().frequency(f).build()),
        ("pnfMm", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).frequency(f).monotonic::<u64>().monotonic::<M>().build()),
        ("pnfm", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).frequency(f).monotonic::<M>().build()),
        ("pnmFf", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).monotonic::<M>().frequency(f / 2 + 1).frequency(f).build()),
        ("pnmf", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).monotonic::<M>().frequency(f).build()),
    ]
}
pub fn rx_pmn<P, M>() -> Vec<(&'static str, fn(u32) -> Receiver<P, Pin, M, <P as Protocol>::Cmd>)>
where P: Pr + DecoderBuilder<M>, M: InfraMonotonic {
    vec![
        ("mnp", |_| infrared::receiver().monotonic::<M>().pin(Pin::new(7)).protocol::<P>().build()),
        ("mpn", |_| infrared::receiver().monotonic::<M>().protocol::<P>().pin(Pin::new(7)).build()),
        ("nmp", |_| infrared::receiver().pin(Pin::new(7)).monotonic::<M>().protocol::<P>().build()),
        ("npm", |_| infrared::receiver().pin(Pin::new(7)).protocol::<P>().monotonic::<M>().build()),
        ("pmn", |_| infrared::receiver().protocol::<P>().monotonic::<M>().pin(Pin::new(7)).build()),
        ("pnm", |_| infrared::receiver().protocol::<P>().pin(Pin::new(7)).monotonic::<M>().build()),
    ]
}
pub fn rx_pfr<P, R>() -> Vec<(&'static str, fn(u32) -> Receiver<P, NoPin, u32, Button<R>>)>
where P: Pr, R: RemoteControlModel<Cmd = <P as Protocol>::Cmd> {
    vec![
        ("fpr", |f| infrared::receiver().frequency(f).protocol::<P>().remotecontrol(R::default()).build()),
        ("pfr", |f| infrared::receiver().protocol::<P>().frequency(f).remotecontrol(R::default()).build()),
        ("prf", |f| infrared::receiver().protocol::<P>().remotecontrol(R::default()).frequency(f).build()),
    ]
}
pub fn rx_pfnr<P, R>() -> Vec<(&'static str, fn(u32) -> Receiver<P, Pin, u32, Button<R>>)>
where P: Pr, R: RemoteControlModel<Cmd = <P as Protocol>::Cmd> {
    vec![
        ("fnpr", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).protocol::<P>().remotecontrol(R::default()).build()),
        ("fpnr", |f| infrared::receiver().frequency(f).protocol::<P>().pin(Pin::new(7)).remotecontrol(R::default()).build()),
        ("fprn", |f| infrared::receiver().frequency(f).protocol::<P>().remotecontrol(R::default()).pin(Pin::new(7)).build()),
        ("nfpr", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).protocol::<P>().remotecontrol(R::default()).build()),
        ("npfr", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().frequency(f).remotecontrol(R::default()).build()),
        ("nprf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().remotecontrol(R::default()).frequency(f).build()),
        ("pfnr", |f| infrared::receiver().protocol::<P>().frequency(f).pin(Pin::new(7)).remotecontrol(R::default()).build()),
        ("pfrn", |f| infrared::receiver().protocol::<P>().frequency(f).remotecontrol(R::default()).pin(Pin::new(7)).build()),
        ("pnfr", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).frequency(f).remotecontrol(R::default()).build()),
        ("pnrf", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).remotecontrol(R::default()).frequency(f).build()),
        ("prfn", |f| infrared::receiver().protocol::<P>().remotecontrol(R::default()).frequency(f).pin(Pin::new(7)).build()),
        ("prnf", |f| infrared::receiver().protocol::<P>().remotecontrol(R::default()).pin(Pin::new(7)).frequency(f).build()),
    ]
}
pub fn rx_pfmnr<P, R, M>() -> Vec<(&'static str, fn(u32) -> Receiver<P, Pin, M, Button<R>>)>
where P: Pr + DecoderBuilder<M>, M: InfraMonotonic, R: RemoteControlModel<Cmd = <P as Protocol>::Cmd> {
    vec![
        ("fmnpr", |f| infrared::receiver().frequency(f).monotonic::<M>().pin(Pin::new(7)).protocol::<P>().remotecontrol(R::default()).build()),
        ("fmpnr", |f| infrared::receiver().frequency(f).monotonic::<M>().protocol::<P>().pin(Pin::new(7)).remotecontrol(R::default()).build()),
        ("fmprn", |f| infrared::receiver().frequency(f).monotonic::<M>().protocol::<P>().remotecontrol(R::default()).pin(Pin::new(7)).build()),
        ("fnmpr", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).monotonic::<M>().protocol::<P>().remotecontrol(R::default()).build()),
        ("fnpmr", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).protocol::<P>().monotonic::<M>().remotecontrol(R::default()).build()),
        ("fnprm", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).protocol::<P>().remotecontrol(R::default()).monotonic::<M>().build()),
        ("fpmnr", |f| infrared::receiver().frequency(f).protocol::<P>().monotonic::<M>().pin(Pin::new(7)).remotecontrol(R::default()).build()),
        ("fpmrn", |f| infrared::receiver().frequency(f).protocol::<P>().monotonic::<M>().remotecontrol(R::default()).pin(Pin::new(7)).build()),
        ("fpnmr", |f| infrared::receiver().frequency(f).protocol::<P>().pin(Pin::new(7)).monotonic::<M>().remotecontrol(R::default()).build()),
        ("fpnrm", |f| infrared::receiver().frequency(f).protocol::<P>().pin(Pin::new(7)).remotecontrol(R::default()).monotonic::<M>().build()),
        ("fprmn", |f| infrared::receiver().frequency(f).protocol::<P>().remotecontrol(R::default()).monotonic::<M>().pin(Pin::new(7)).build()),
        ("fprnm", |f| infrared::receiver().frequency(f).protocol::<P>().remotecontrol(R::default()).pin(Pin::new(7)).monotonic::<M>().build()),
        ("mfnpr", |f| infrared::receiver().monotonic::<M>().frequency(f).pin(Pin::new(7)).protocol::<P>().remotecontrol(R::default()).build()),
        ("mfpnr", |f| infrared::receiver().monotonic::<M>().frequency(f).protocol::<P>().pin(Pin::new(7)).remotecontrol(R::default()).build()),
        ("mfprn", |f| infrared::receiver().monotonic::<M>().frequency(f).protocol::<P>().remotecontrol(R::default()).pin(Pin::new(7)).build()),
        ("mnfpr", |f| infrared::receiver().monotonic::<M>().pin(Pin::new(7)).frequency(f).protocol::<P>().remotecontrol(R::default()).build()),
        ("mnpfr", |f| infrared::receiver().monotonic::<M>().pin(Pin::new(7)).protocol::<P>().frequency(f).remotecontrol(R::default()).build()),
        ("mnprf", |f| infrared::receiver().monotonic::<M>().pin(Pin::new(7)).protocol::<P>().remotecontrol(R::default()).frequency(f).build()),
        ("mpfnr", |f| infrared::receiver().monotonic::<M>().protocol::<P>().frequency(f).pin(Pin::new(7)).remotecontrol(R::default()).build()),
        ("mpfrn", |f| infrared::receiver().monotonic::<M>().protocol::<P>().frequency(f).remotecontrol(R::default()).pin(Pin::new(7)).build()),
        ("mpnfr", |f| infrared::receiver().monotonic::<M>().protocol::<P>().pin(Pin::new(7)).frequency(f).remotecontrol(R::default()).build()),
        ("mpnrf", |f| infrared::receiver().monotonic::<M>().protocol::<P>().pin(Pin::new(7)).remotecontrol(R::default()).frequency(f).build()),
        ("mprfn", |f| infrared::receiver().monotonic::<M>().protocol::<P>().remotecontrol(R::default()).frequency(f).pin(Pin::new(7)).build()),
        ("mprnf", |f| infrared::receiver().monotonic::<M>().protocol::<P>().remotecontrol(R::default()).pin(Pin::new(7)).frequency(f).build()),
        ("nfmpr", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).monotonic::<M>().protocol::<P>().remotecontrol(R::default()).build()),
        ("nfpmr", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).protocol::<P>().monotonic::<M>().remotecontrol(R::default()).build()),
        ("nfprm", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).protocol::<P>().remotecontrol(R::default()).monotonic::<M>().build()),
        ("nmfpr", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<M>().frequency(f).protocol::<P>().remotecontrol(R::default()).build()),
        ("nmpfr", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<M>().protocol::<P>().frequency(f).remotecontrol(R::default()).build()),
        ("nmprf", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<M>().protocol::<P>().remotecontrol(R::default()).frequency(f).build()),
        ("npfmr", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().frequency(f).monotonic::<M>().remotecontrol(R::default()).build()),
        ("npfrm", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().frequency(f).remotecontrol(R::default()).monotonic::<M>().build()),
        ("npmfr", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().monotonic::<M>().frequency(f).remotecontrol(R::default()).build()),
        ("npmrf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().monotonic::<M>().remotecontrol(R::default()).frequency(f).build()),
        ("nprfm", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().remotecontrol(R::default()).frequency(f).monotonic::<M>().build()),
        ("nprmf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().remotecontrol(R::default()).monotonic::<M>().frequency(f).build()),
        ("pfmnr", |f| infrared::receiver().protocol::<P>().frequency(f).monotonic::<M>().pin(Pin::new(7)).remotecontrol(R::default()).build()),
        ("pfmrn", |f| infrared::receiver().protocol::<P>().frequency(f).monotonic::<M>().remotecontrol(R::default()).pin(Pin::new(7)).build()),
        ("pfnmr", |f| infrared::receiver().protocol::<P>().frequency(f).pin(Pin::new(7)).monotonic::<M>().remotecontrol(R::default()).build()),
        ("pfnrm", |f| infrared::receiver().protocol::<P>().frequency(f).pin(Pin::new(7)).remotecontrol(R::default()).monotonic::<M>().build()),
        ("pfrmn", |f| infrared::receiver().protocol::<P>().frequency(f).remotecontrol(R::default()).monotonic::<M>().pin(Pin::new(7)).build()),
        ("pfrnm", |f| infrared::receiver().protocol::<P>().frequency(f).remotecontrol(R::default()).pin(Pin::new(7)).monotonic::<M>().build()),
        ("pmfnr", |f| infrared::receiver().protocol::<P>().monotonic::<M>().frequency(f).pin(Pin::new(7)).remotecontrol(R::default()).build()),
        ("pmfrn", |f| infrared::receiver().protocol::<P>().monotonic::<M>().frequency(f).remotecontrol(R::default()).pin(Pin::new(7)).build()),
        ("pmnfr", |f| infrared::receiver().protocol::<P>().monotonic::<M>().pin(Pin::new(7)).frequency(f).remotecontrol(R::default()).build()),
        ("pmnrf", |f| infrared::receiver().protocol::<P>().monotonic::<M>().pin(Pin::new(7)).remotecontrol(R::default()).frequency(f).build()),
        ("pmrfn", |f| infrared::receiver().protocol::<P>().monotonic::<M>().remotecontrol(R::default()).frequency(f).pin(Pin::new(7)).build()),
        ("pmrnf", |f| infrared::receiver().protocol::<P>().monotonic::<M>().remotecontrol(R::default()).pin(Pin::new(7)).frequency(f).build()),
        ("pnfmr", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).frequency(f).monotonic::<M>().remotecontrol(R::default()).build()),
        ("pnfrm", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).frequency(f).remotecontrol(R::default()).monotonic::<M>().build()),
        ("pnmfr", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).monotonic::<M>().frequency(f).remotecontrol(R::default()).build()),
        ("pnmrf", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).monotonic::<M>().remotecontrol(R::default()).frequency(f).build()),
        ("pnrfm", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).remotecontrol(R::default()).frequency(f).monotonic::<M>().build()),
        ("pnrmf", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).remotecontrol(R::default()).monotonic::<M>().frequency(f).build()),
        ("prfmn", |f| infrared::receiver().protocol::<P>().remotecontrol(R::default()).frequency(f).monotonic::<M>().pin(Pin::new(7)).build()),
        ("prfnm", |f| infrared::receiver().protocol::<P>().remotecontrol(R::default()).frequency(f).pin(Pin::new(7)).monotonic::<M>().build()),
        ("prmfn", |f| infrared::receiver().protocol::<P>().remotecontrol(R::default()).monotonic::<M>().frequency(f).pin(Pin::new(7)).build()),
        ("prmnf", |f| infrared::receiver().protocol::<P>().remotecontrol(R::default()).monotonic::<M>().pin(Pin::new(7)).frequency(f).build()),
        ("prnfm", |f| infrared::receiver().protocol::<P>().remotecontrol(R::default()).pin(Pin::new(7)).frequency(f).monotonic::<M>().build()),
        ("prnmf", |f| infrared::receiver().protocol::<P>().remotecontrol(R::default()).pin(Pin::new(7)).monotonic::<M>().frequency(f).build()),
    ]
}
pub fn po_pf<P>() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<P>)>
where P: Pr {
    vec![
        ("Ffp", |f| infrared::receiver().frequency(f / 2 + 1).frequency(f).protocol::<P>().build_polled()),
        ("Fpf", |f| infrared::receiver().frequency(f / 2 + 1).protocol::<P>().frequency(f).build_polled()),
        ("Qfp", |f| infrared::receiver().protocol::<Other>().frequency(f).protocol::<P>().build_polled()),
        ("Qpf", |f| infrared::receiver().protocol::<Other>().protocol::<P>().frequency(f).build_polled()),
        ("fQp", |f| infrared::receiver().frequency(f).protocol::<Other>().protocol::<P>().build_polled()),
        ("fp", |f| infrared::receiver().frequency(f).protocol::<P>().build_polled()),
        ("pFf", |f| infrared::receiver().protocol::<P>().frequency(f / 2 + 1).frequency(f).build_polled()),
        ("pf", |f| infrared::receiver().protocol::<P>().frequency(f).build_polled()),
    ]
}
pub fn po_p<P>() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<P>)>
where P: Pr {
    vec![
        ("p", |_| infrared::receiver().protocol::<P>().build_polled()),
    ]
}
pub fn po_pfn<P>() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<P, Pin>)>
where P: Pr {
    vec![
        ("Ffnp", |f| infrared::receiver().frequency(f / 2 + 1).frequency(f).pin(Pin::new(7)).protocol::<P>().build_polled()),
        ("Ffpn", |f| infrared::receiver().frequency(f / 2 + 1).frequency(f).protocol::<P>().pin(Pin::new(7)).build_polled()),
        ("Fnfp", |f| infrared::receiver().frequency(f / 2 + 1).pin(Pin::new(7)).frequency(f).protocol::<P>().build_polled()),
        ("Fnpf", |f| infrared::receiver().frequency(f / 2 + 1).pin(Pin::new(7)).protocol::<P>().frequency(f).build_polled()),
        ("Fpfn", |f| infrared::receiver().frequency(f / 2 + 1).protocol::<P>().frequency(f).pin(Pin::new(7)).build_polled()),
        ("Fpnf", |f| infrared::receiver().frequency(f / 2 + 1).protocol::<P>().pin(Pin::new(7)).frequency(f).build_polled()),
        ("Qfnp", |f| infrared::receiver().protocol::<Other>().frequency(f).pin(Pin::new(7)).protocol::<P>().build_polled()),
        ("Qfpn", |f| infrared::receiver().protocol::<Other>().frequency(f).protocol::<P>().pin(Pin::new(7)).build_polled()),
        ("Qnfp", |f| infrared::receiver().protocol::<Other>().pin(Pin::new(7)).frequency(f).protocol::<P>().build_polled()),
        ("Qnpf", |f| infrared::receiver().protocol::<Other>().pin(Pin::new(7)).protocol::<P>().frequency(f).build_polled()),
        ("Qpfn", |f| infrared::receiver().protocol::<Other>().protocol::<P>().frequency(f).pin(Pin::new(7)).build_polled()),
        ("Qpnf", |f| infrared::receiver().protocol::<Other>().protocol::<P>().pin(Pin::new(7)).frequency(f).build_polled()),
        ("Wfnp", |f| infrared::receiver().pin(Wrong).frequency(f).pin(Pin::new(7)).protocol::<P>().build_polled()),
        ("Wfpn", |f| infrared::receiver().pin(Wrong).frequency(f).protocol::<P>().pin(Pin::new(7)).build_polled()),
        ("Wnfp", |f| infrared::receiver().pin(Wrong).pin(Pin::new(7)).frequency(f).protocol::<P>().build_polled()),
        ("Wnpf", |f| infrared::receiver().pin(Wrong).pin(Pin::new(7)).protocol::<P>().frequency(f).build_polled()),
        ("Wpfn", |f| infrared::receiver().pin(Wrong).protocol::<P>().frequency(f).pin(Pin::new(7)).build_polled()),
        ("Wpnf", |f| infrared::receiver().pin(Wrong).protocol::<P>().pin(Pin::new(7)).frequency(f).build_polled()),
        ("fQnp", |f| infrared::receiver().frequency(f).protocol::<Other>().pin(Pin::new(7)).protocol::<P>().build_polled()),
        ("fQpn", |f| infrared::receiver().frequency(f).protocol::<Other>().protocol::<P>().pin(Pin::new(7)).build_polled()),
        ("fWnp", |f| infrared::receiver().frequency(f).pin(Wrong).pin(Pin::new(7)).protocol::<P>().build_polled()),
        ("fWpn", |f| infrared::receiver().frequency(f).pin(Wrong).protocol::<P>().pin(Pin::new(7)).build_polled()),
        ("fnQp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).protocol::<Other>().protocol::<P>().build_polled()),
        ("fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).protocol::<P>().build_polled()),
        ("fpWn", |f| infrared::receiver().frequency(f).protocol::<P>().pin(Wrong).pin(Pin::new(7)).build_polled()),
        ("fpn", |f| infrared::receiver().frequency(f).protocol::<P>().pin(Pin::new(7)).build_polled()),
        ("nFfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f / 2 + 1).frequency(f).protocol::<P>().build_polled()),
        ("nFpf", |f| infrared::receiver().pin(Pin::new(7)).frequency(f / 2 + 1).protocol::<P>().frequency(f).build_polled()),
        ("nQfp", |f| infrared::receiver().pin(Pin::new(7)).protocol::<Other>().frequency(f).protocol::<P>().build_polled()),
        ("nQpf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<Other>().protocol::<P>().frequency(f).build_polled()),
        ("nfQp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).protocol::<Other>().protocol::<P>().build_polled()),
        ("nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).protocol::<P>().build_polled()),
        ("npFf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().frequency(f / 2 + 1).frequency(f).build_polled()),
        ("npf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().frequency(f).build_polled()),
        ("pFfn", |f| infrared::receiver().protocol::<P>().frequency(f / 2 + 1).frequency(f).pin(Pin::new(7)).build_polled()),
        ("pFnf", |f| infrared::receiver().protocol::<P>().frequency(f / 2 + 1).pin(Pin::new(7)).frequency(f).build_polled()),
        ("pWfn", |f| infrared::receiver().protocol::<P>().pin(Wrong).frequency(f).pin(Pin::new(7)).build_polled()),
        ("pWnf", |f| infrared::receiver().protocol::<P>().pin(Wrong).pin(Pin::new(7)).frequency(f).build_polled()),
        ("pfWn", |f| infrared::receiver().protocol::<P>().frequency(f).pin(Wrong).pin(Pin::new(7)).build_polled()),
        ("pfn", |f| infrared::receiver().protocol::<P>().frequency(f).pin(Pin::new(7)).build_polled()),
        ("pnFf", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).frequency(f / 2 + 1).frequency(f).build_polled()),
        ("pnf", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).frequency(f).build_polled()),
    ]
}
pub fn po_pn<P>() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<P, Pin>)>
where P: Pr {
    vec![
        ("np", |_| infrared::receiver().pin(Pin::new(7)).protocol::<P>().build_polled()),
        ("pn", |_| infrared::receiver().protocol::<P>().pin(Pin::new(7)).build_polled()),
    ]
}
pub fn po_pfm<P, M>() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<P>)>
where P: Pr + DecoderBuilder<M>, M: InfraMonotonic {
    vec![
        ("fmp", |f| infrared::receiver().frequency(f).monotonic::<M>().protocol::<P>().build_polled()),
        ("fpm", |f| infrared::receiver().frequency(f).protocol::<P>().monotonic::<M>().build_polled()),
        ("mfp", |f| infrared::receiver().monotonic::<M>().frequency(f).protocol::<P>().build_polled()),
        ("mpf", |f| infrared::receiver().monotonic::<M>().protocol::<P>().frequency(f).build_polled()),
        ("pfm", |f| infrared::receiver().protocol::<P>().frequency(f).monotonic::<M>().build_polled()),
        ("pmf", |f| infrared::receiver().protocol::<P>().monotonic::<M>().frequency(f).build_polled()),
    ]
}
pub fn po_pfmn<P, M>() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<P, Pin>)>
where P: Pr + DecoderBuilder<M>, M: InfraMonotonic {
    vec![
        ("fmnp", |f| infrared::receiver().frequency(f).monotonic::<M>().pin(Pin::new(7)).protocol::<P>().build_polled()),
        ("fmpn", |f| infrared::receiver().frequency(f).monotonic::<M>().protocol::<P>().pin(Pin::new(7)).build_polled()),
        ("fnmp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).monotonic::<M>().protocol::<P>().build_polled()),
        ("fnpm", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).protocol::<P>().monotonic::<M>().build_polled()),
        ("fpmn", |f| infrared::receiver().frequency(f).protocol::<P>().monotonic::<M>().pin(Pin::new(7)).build_polled()),
        ("fpnm", |f| infrared::receiver().frequency(f).protocol::<P>().pin(Pin::new(7)).monotonic::<M>().build_polled()),
        ("mfnp", |f| infrared::receiver().monotonic::<M>().frequency(f).pin(Pin::new(7)).protocol::<P>().build_polled()),
        ("mfpn", |f| infrared::receiver().monotonic::<M>().frequency(f).protocol::<P>().pin(Pin::new(7)).build_polled()),
        ("mnfp", |f| infrared::receiver().monotonic::<M>().pin(Pin::new(7)).frequency(f).protocol::<P>().build_polled()),
        ("mnpf", |f| infrared::receiver().monotonic::<M>().pin(Pin::new(7)).protocol::<P>().frequency(f).build_polled()),
        ("mpfn", |f| infrared::receiver().monotonic::<M>().protocol::<P>().frequency(f).pin(Pin::new(7)).build_polled()),
        ("mpnf", |f| infrared::receiver().monotonic::<M>().protocol::<P>().pin(Pin::new(7)).frequency(f).build_polled()),
        ("nfmp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).monotonic::<M>().protocol::<P>().build_polled()),
        ("nfpm", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).protocol::<P>().monotonic::<M>().build_polled()),
        ("nmfp", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<M>().frequency(f).protocol::<P>().build_polled()),
        ("nmpf", |f| infrared::receiver().pin(Pin::new(7)).monotonic::<M>().protocol::<P>().frequency(f).build_polled()),
        ("npfm", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().frequency(f).monotonic::<M>().build_polled()),
        ("npmf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().monotonic::<M>().frequency(f).build_polled()),
        ("pfmn", |f| infrared::receiver().protocol::<P>().frequency(f).monotonic::<M>().pin(Pin::new(7)).build_polled()),
        ("pfnm", |f| infrared::receiver().protocol::<P>().frequency(f).pin(Pin::new(7)).monotonic::<M>().build_polled()),
        ("pmfn", |f| infrared::receiver().protocol::<P>().monotonic::<M>().frequency(f).pin(Pin::new(7)).build_polled()),
        ("pmnf", |f| infrared::receiver().protocol::<P>().monotonic::<M>().pin(Pin::new(7)).frequency(f).build_polled()),
        ("pnfm", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).frequency(f).monotonic::<M>().build_polled()),
        ("pnmf", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).monotonic::<M>().frequency(f).build_polled()),
    ]
}
pub fn po_pfnr<P, R>() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<P, Pin, Button<R>>)>
where P: Pr, R: RemoteControlModel<Cmd = <P as Protocol>::Cmd> {
    vec![
        ("fnpr", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).protocol::<P>().remotecontrol(R::default()).build_polled()),
        ("fpnr", |f| infrared::receiver().frequency(f).protocol::<P>().pin(Pin::new(7)).remotecontrol(R::default()).build_polled()),
        ("fprn", |f| infrared::receiver().frequency(f).protocol::<P>().remotecontrol(R::default()).pin(Pin::new(7)).build_polled()),
        ("nfpr", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).protocol::<P>().remotecontrol(R::default()).build_polled()),
        ("npfr", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().frequency(f).remotecontrol(R::default()).build_polled()),
        ("nprf", |f| infrared::receiver().pin(Pin::new(7)).protocol::<P>().remotecontrol(R::default()).frequency(f).build_polled()),
        ("pfnr", |f| infrared::receiver().protocol::<P>().frequency(f).pin(Pin::new(7)).remotecontrol(R::default()).build_polled()),
        ("pfrn", |f| infrared::receiver().protocol::<P>().frequency(f).remotecontrol(R::default()).pin(Pin::new(7)).build_polled()),
        ("pnfr", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).frequency(f).remotecontrol(R::default()).build_polled()),
        ("pnrf", |f| infrared::receiver().protocol::<P>().pin(Pin::new(7)).remotecontrol(R::default()).frequency(f).build_polled()),
        ("prfn", |f| infrared::receiver().protocol::<P>().remotecontrol(R::default()).frequency(f).pin(Pin::new(7)).build_polled()),
        ("prnf", |f| infrared::receiver().protocol::<P>().remotecontrol(R::default()).pin(Pin::new(7)).frequency(f).build_polled()),
    ]
}
pub fn named_nec_pf_build() -> Vec<(&'static str, fn(u32) -> Receiver<Nec>)> {
    vec![
        ("nec: fp", |f| infrared::receiver().frequency(f).nec().build()),
        ("nec: pf", |f| infrared::receiver().nec().frequency(f).build()),
    ]
}
pub fn named_nec_pfn_build() -> Vec<(&'static str, fn(u32) -> Receiver<Nec, Pin>)> {
    vec![
        ("nec: fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).nec().build()),
        ("nec: fpn", |f| infrared::receiver().frequency(f).nec().pin(Pin::new(7)).build()),
        ("nec: nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).nec().build()),
        ("nec: npf", |f| infrared::receiver().pin(Pin::new(7)).nec().frequency(f).build()),
        ("nec: pfn", |f| infrared::receiver().nec().frequency(f).pin(Pin::new(7)).build()),
        ("nec: pnf", |f| infrared::receiver().nec().pin(Pin::new(7)).frequency(f).build()),
    ]
}
pub fn named_nec_pf_build_polled() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<Nec>)> {
    vec![
        ("nec: fp", |f| infrared::receiver().frequency(f).nec().build_polled()),
        ("nec: pf", |f| infrared::receiver().nec().frequency(f).build_polled()),
    ]
}
pub fn named_nec_pfn_build_polled() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<Nec, Pin>)> {
    vec![
        ("nec: fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).nec().build_polled()),
        ("nec: fpn", |f| infrared::receiver().frequency(f).nec().pin(Pin::new(7)).build_polled()),
        ("nec: nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).nec().build_polled()),
        ("nec: npf", |f| infrared::receiver().pin(Pin::new(7)).nec().frequency(f).build_polled()),
        ("nec: pfn", |f| infrared::receiver().nec().frequency(f).pin(Pin::new(7)).build_polled()),
        ("nec: pnf", |f| infrared::receiver().nec().pin(Pin::new(7)).frequency(f).build_polled()),
    ]
}
pub fn named_nec16_pf_build() -> Vec<(&'static str, fn(u32) -> Receiver<Nec16>)> {
    vec![
        ("nec16: fp", |f| infrared::receiver().frequency(f).nec16().build()),
        ("nec16: pf", |f| infrared::receiver().nec16().frequency(f).build()),
    ]
}
pub fn named_nec16_pfn_build() -> Vec<(&'static str, fn(u32) -> Receiver<Nec16, Pin>)> {
    vec![
        ("nec16: fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).nec16().build()),
        ("nec16: fpn", |f| infrared::receiver().frequency(f).nec16().pin(Pin::new(7)).build()),
        ("nec16: nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).nec16().build()),
        ("nec16: npf", |f| infrared::receiver().pin(Pin::new(7)).nec16().frequency(f).build()),
        ("nec16: pfn", |f| infrared::receiver().nec16().frequency(f).pin(Pin::new(7)).build()),
        ("nec16: pnf", |f| infrared::receiver().nec16().pin(Pin::new(7)).frequency(f).build()),
    ]
}
pub fn named_nec16_pf_build_polled() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<Nec16>)> {
    vec![
        ("nec16: fp", |f| infrared::receiver().frequency(f).nec16().build_polled()),
        ("nec16: pf", |f| infrared::receiver().nec16().frequency(f).build_polled()),
    ]
}
pub fn named_nec16_pfn_build_polled() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<Nec16, Pin>)> {
    vec![
        ("nec16: fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).nec16().build_polled()),
        ("nec16: fpn", |f| infrared::receiver().frequency(f).nec16().pin(Pin::new(7)).build_polled()),
        ("nec16: nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).nec16().build_polled()),
        ("nec16: npf", |f| infrared::receiver().pin(Pin::new(7)).nec16().frequency(f).build_polled()),
        ("nec16: pfn", |f| infrared::receiver().nec16().frequency(f).pin(Pin::new(7)).build_polled()),
        ("nec16: pnf", |f| infrared::receiver().nec16().pin(Pin::new(7)).frequency(f).build_polled()),
    ]
}
pub fn named_nec_samsung_pf_build() -> Vec<(&'static str, fn(u32) -> Receiver<SamsungNec>)> {
    vec![
        ("nec_samsung: fp", |f| infrared::receiver().frequency(f).nec_samsung().build()),
        ("nec_samsung: pf", |f| infrared::receiver().nec_samsung().frequency(f).build()),
    ]
}
pub fn named_nec_samsung_pfn_build() -> Vec<(&'static str, fn(u32) -> Receiver<SamsungNec, Pin>)> {
    vec![
        ("nec_samsung: fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).nec_samsung().build()),
        ("nec_samsung: fpn", |f| infrared::receiver().frequency(f).nec_samsung().pin(Pin::new(7)).build()),
        ("nec_samsung: nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).nec_samsung().build()),
        ("nec_samsung: npf", |f| infrared::receiver().pin(Pin::new(7)).nec_samsung().frequency(f).build()),
        ("nec_samsung: pfn", |f| infrared::receiver().nec_samsung().frequency(f).pin(Pin::new(7)).build()),
        ("nec_samsung: pnf", |f| infrared::receiver().nec_samsung().pin(Pin::new(7)).frequency(f).build()),
    ]
}
pub fn named_nec_samsung_pf_build_polled() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<SamsungNec>)> {
    vec![
        ("nec_samsung: fp", |f| infrared::receiver().frequency(f).nec_samsung().build_polled()),
        ("nec_samsung: pf", |f| infrared::receiver().nec_samsung().frequency(f).build_polled()),
    ]
}
pub fn named_nec_samsung_pfn_build_polled() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<SamsungNec, Pin>)> {
    vec![
        ("nec_samsung: fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).nec_samsung().build_polled()),
        ("nec_samsung: fpn", |f| infrared::receiver().frequency(f).nec_samsung().pin(Pin::new(7)).build_polled()),
        ("nec_samsung: nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).nec_samsung().build_polled()),
        ("nec_samsung: npf", |f| infrared::receiver().pin(Pin::new(7)).nec_samsung().frequency(f).build_polled()),
        ("nec_samsung: pfn", |f| infrared::receiver().nec_samsung().frequency(f).pin(Pin::new(7)).build_polled()),
        ("nec_samsung: pnf", |f| infrared::receiver().nec_samsung().pin(Pin::new(7)).frequency(f).build_polled()),
    ]
}
pub fn named_nec_apple_pf_build() -> Vec<(&'static str, fn(u32) -> Receiver<AppleNec>)> {
    vec![
        ("nec_apple: fp", |f| infrared::receiver().frequency(f).nec_apple().build()),
        ("nec_apple: pf", |f| infrared::receiver().nec_apple().frequency(f).build()),
    ]
}
pub fn named_nec_apple_pfn_build() -> Vec<(&'static str, fn(u32) -> Receiver<AppleNec, Pin>)> {
    vec![
        ("nec_apple: fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).nec_apple().build()),
        ("nec_apple: fpn", |f| infrared::receiver().frequency(f).nec_apple().pin(Pin::new(7)).build()),
        ("nec_apple: nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).nec_apple().build()),
        ("nec_apple: npf", |f| infrared::receiver().pin(Pin::new(7)).nec_apple().frequency(f).build()),
        ("nec_apple: pfn", |f| infrared::receiver().nec_apple().frequency(f).pin(Pin::new(7)).build()),
        ("nec_apple: pnf", |f| infrared::receiver().nec_apple().pin(Pin::new(7)).frequency(f).build()),
    ]
}
pub fn named_nec_apple_pf_build_polled() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<AppleNec>)> {
    vec![
        ("nec_apple: fp", |f| infrared::receiver().frequency(f).nec_apple().build_polled()),
        ("nec_apple: pf", |f| infrared::receiver().nec_apple().frequency(f).build_polled()),
    ]
}
pub fn named_nec_apple_pfn_build_polled() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<AppleNec, Pin>)> {
    vec![
        ("nec_apple: fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).nec_apple().build_polled()),
        ("nec_apple: fpn", |f| infrared::receiver().frequency(f).nec_apple().pin(Pin::new(7)).build_polled()),
        ("nec_apple: nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).nec_apple().build_polled()),
        ("nec_apple: npf", |f| infrared::receiver().pin(Pin::new(7)).nec_apple().frequency(f).build_polled()),
        ("nec_apple: pfn", |f| infrared::receiver().nec_apple().frequency(f).pin(Pin::new(7)).build_polled()),
        ("nec_apple: pnf", |f| infrared::receiver().nec_apple().pin(Pin::new(7)).frequency(f).build_polled()),
    ]
}
pub fn named_rc5_pf_build() -> Vec<(&'static str, fn(u32) -> Receiver<Rc5>)> {
    vec![
        ("rc5: fp", |f| infrared::receiver().frequency(f).rc5().build()),
        ("rc5: pf", |f| infrared::receiver().rc5().frequency(f).build()),
    ]
}
pub fn named_rc5_pfn_build() -> Vec<(&'static str, fn(u32) -> Receiver<Rc5, Pin>)> {
    vec![
        ("rc5: fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).rc5().build()),
        ("rc5: fpn", |f| infrared::receiver().frequency(f).rc5().pin(Pin::new(7)).build()),
        ("rc5: nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).rc5().build()),
        ("rc5: npf", |f| infrared::receiver().pin(Pin::new(7)).rc5().frequency(f).build()),
        ("rc5: pfn", |f| infrared::receiver().rc5().frequency(f).pin(Pin::new(7)).build()),
        ("rc5: pnf", |f| infrared::receiver().rc5().pin(Pin::new(7)).frequency(f).build()),
    ]
}
pub fn named_rc5_pf_build_polled() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<Rc5>)> {
    vec![
        ("rc5: fp", |f| infrared::receiver().frequency(f).rc5().build_polled()),
        ("rc5: pf", |f| infrared::receiver().rc5().frequency(f).build_polled()),
    ]
}
pub fn named_rc5_pfn_build_polled() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<Rc5, Pin>)> {
    vec![
        ("rc5: fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).rc5().build_polled()),
        ("rc5: fpn", |f| infrared::receiver().frequency(f).rc5().pin(Pin::new(7)).build_polled()),
        ("rc5: nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).rc5().build_polled()),
        ("rc5: npf", |f| infrared::receiver().pin(Pin::new(7)).rc5().frequency(f).build_polled()),
        ("rc5: pfn", |f| infrared::receiver().rc5().frequency(f).pin(Pin::new(7)).build_polled()),
        ("rc5: pnf", |f| infrared::receiver().rc5().pin(Pin::new(7)).frequency(f).build_polled()),
    ]
}
pub fn named_rc6_pf_build() -> Vec<(&'static str, fn(u32) -> Receiver<Rc6>)> {
    vec![
        ("rc6: fp", |f| infrared::receiver().frequency(f).rc6().build()),
        ("rc6: pf", |f| infrared::receiver().rc6().frequency(f).build()),
    ]
}
pub fn named_rc6_pfn_build() -> Vec<(&'static str, fn(u32) -> Receiver<Rc6, Pin>)> {
    vec![
        ("rc6: fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).rc6().build()),
        ("rc6: fpn", |f| infrared::receiver().frequency(f).rc6().pin(Pin::new(7)).build()),
        ("rc6: nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).rc6().build()),
        ("rc6: npf", |f| infrared::receiver().pin(Pin::new(7)).rc6().frequency(f).build()),
        ("rc6: pfn", |f| infrared::receiver().rc6().frequency(f).pin(Pin::new(7)).build()),
        ("rc6: pnf", |f| infrared::receiver().rc6().pin(Pin::new(7)).frequency(f).build()),
    ]
}
pub fn named_rc6_pf_build_polled() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<Rc6>)> {
    vec![
        ("rc6: fp", |f| infrared::receiver().frequency(f).rc6().build_polled()),
        ("rc6: pf", |f| infrared::receiver().rc6().frequency(f).build_polled()),
    ]
}
pub fn named_rc6_pfn_build_polled() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<Rc6, Pin>)> {
    vec![
        ("rc6: fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).rc6().build_polled()),
        ("rc6: fpn", |f| infrared::receiver().frequency(f).rc6().pin(Pin::new(7)).build_polled()),
        ("rc6: nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).rc6().build_polled()),
        ("rc6: npf", |f| infrared::receiver().pin(Pin::new(7)).rc6().frequency(f).build_polled()),
        ("rc6: pfn", |f| infrared::receiver().rc6().frequency(f).pin(Pin::new(7)).build_polled()),
        ("rc6: pnf", |f| infrared::receiver().rc6().pin(Pin::new(7)).frequency(f).build_polled()),
    ]
}
pub fn named_samsung_bluray_pf_build() -> Vec<(&'static str, fn(u32) -> Receiver<Sbp>)> {
    vec![
        ("samsung_bluray: fp", |f| infrared::receiver().frequency(f).samsung_bluray().build()),
        ("samsung_bluray: pf", |f| infrared::receiver().samsung_bluray().frequency(f).build()),
    ]
}
pub fn named_samsung_bluray_pfn_build() -> Vec<(&'static str, fn(u32) -> Receiver<Sbp, Pin>)> {
    vec![
        ("samsung_bluray: fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).samsung_bluray().build()),
        ("samsung_bluray: fpn", |f| infrared::receiver().frequency(f).samsung_bluray().pin(Pin::new(7)).build()),
        ("samsung_bluray: nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).samsung_bluray().build()),
        ("samsung_bluray: npf", |f| infrared::receiver().pin(Pin::new(7)).samsung_bluray().frequency(f).build()),
        ("samsung_bluray: pfn", |f| infrared::receiver().samsung_bluray().frequency(f).pin(Pin::new(7)).build()),
        ("samsung_bluray: pnf", |f| infrared::receiver().samsung_bluray().pin(Pin::new(7)).frequency(f).build()),
    ]
}
pub fn named_samsung_bluray_pf_build_polled() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<Sbp>)> {
    vec![
        ("samsung_bluray: fp", |f| infrared::receiver().frequency(f).samsung_bluray().build_polled()),
        ("samsung_bluray: pf", |f| infrared::receiver().samsung_bluray().frequency(f).build_polled()),
    ]
}
pub fn named_samsung_bluray_pfn_build_polled() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<Sbp, Pin>)> {
    vec![
        ("samsung_bluray: fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).samsung_bluray().build_polled()),
        ("samsung_bluray: fpn", |f| infrared::receiver().frequency(f).samsung_bluray().pin(Pin::new(7)).build_polled()),
        ("samsung_bluray: nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).samsung_bluray().build_polled()),
        ("samsung_bluray: npf", |f| infrared::receiver().pin(Pin::new(7)).samsung_bluray().frequency(f).build_polled()),
        ("samsung_bluray: pfn", |f| infrared::receiver().samsung_bluray().frequency(f).pin(Pin::new(7)).build_polled()),
        ("samsung_bluray: pnf", |f| infrared::receiver().samsung_bluray().pin(Pin::new(7)).frequency(f).build_polled()),
    ]
}
pub fn named_denon_pf_build() -> Vec<(&'static str, fn(u32) -> Receiver<Denon>)> {
    vec![
        ("denon: fp", |f| infrared::receiver().frequency(f).denon().build()),
        ("denon: pf", |f| infrared::receiver().denon().frequency(f).build()),
    ]
}
pub fn named_denon_pfn_build() -> Vec<(&'static str, fn(u32) -> Receiver<Denon, Pin>)> {
    vec![
        ("denon: fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).denon().build()),
        ("denon: fpn", |f| infrared::receiver().frequency(f).denon().pin(Pin::new(7)).build()),
        ("denon: nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).denon().build()),
        ("denon: npf", |f| infrared::receiver().pin(Pin::new(7)).denon().frequency(f).build()),
        ("denon: pfn", |f| infrared::receiver().denon().frequency(f).pin(Pin::new(7)).build()),
        ("denon: pnf", |f| infrared::receiver().denon().pin(Pin::new(7)).frequency(f).build()),
    ]
}
pub fn named_denon_pf_build_polled() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<Denon>)> {
    vec![
        ("denon: fp", |f| infrared::receiver().frequency(f).denon().build_polled()),
        ("denon: pf", |f| infrared::receiver().denon().frequency(f).build_polled()),
    ]
}
pub fn named_denon_pfn_build_polled() -> Vec<(&'static str, fn(u32) -> PeriodicPoll<Denon, Pin>)> {
    vec![
        ("denon: fnp", |f| infrared::receiver().frequency(f).pin(Pin::new(7)).denon().build_polled()),
        ("denon: fpn", |f| infrared::receiver().frequency(f).denon().pin(Pin::new(7)).build_polled()),
        ("denon: nfp", |f| infrared::receiver().pin(Pin::new(7)).frequency(f).denon().build_polled()),
        ("denon: npf", |f| infrared::receiver().pin(Pin::new(7)).denon().frequency(f).build_polled()),
        ("denon: pfn", |f| infrared::receiver().denon().frequency(f).pin(Pin::new(7)).build_polled()),
        ("denon: pnf", |f| infrared::receiver().denon().pin(Pin::new(7)).frequency(f).build_polled()),
    ]
}
