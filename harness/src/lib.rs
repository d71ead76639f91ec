//! Symbolic-execution harnesses for siderust.  Entry points named `h_*` run with
//! bit-precise IEEE floats, those named `hr_*` over exact reals.
#![allow(clippy::all)]
pub mod sv;
#[cfg(feature = "m_tle")]
mod tle;
#[cfg(feature = "m_ev")]
mod ev;
#[cfg(feature = "m_adsb")]
mod adsb;
#[cfg(feature = "m_spk")]
mod spk;
#[cfg(feature = "m_spt")]
mod spt;
#[cfg(feature = "m_fr")]
mod fr;
#[cfg(feature = "m_ct")]
mod ct;
#[cfg(feature = "m_hz")]
mod hz;
#[cfg(feature = "m_kp")]
mod kp;
#[cfg(feature = "m_sc")]
mod sc;
#[cfg(feature = "m_mi")]
mod mi;
#[cfg(feature = "m_pd")]
mod pd;
#[cfg(feature = "m_dy")]
mod dy;
