PROPS = {
 'C01': dict(features='m_tle', entries=[
   dict(name='h_tle_checksum', need=[1,2]),
   dict(name='h_tle_l1_window', need=[1,2,3]),
   dict(name='h_tle_l2_window', need=[1,2,3]),
   dict(name='h_tle_l1_fwindow', need=[1,2,3]),
   dict(name='h_tle_l2_fwindow', need=[1,2,3]),
   dict(name='h_tle_l1_fwindow2', need=[1,2,3], thorough_only=1),
   dict(name='h_tle_l2_fwindow2', need=[1,2,3], thorough_only=1),
   dict(name='h_tle_finite', need=[1,2]),
   dict(name='h_tle_epoch_window', need=[1,2,3]),
   dict(name='h_tle_length', need=[1,2]),
   dict(name='h_tle_name', need=[1,2,3]),
 ]),
 'C02': dict(features='m_tle', entries=[
   dict(name='h_tle_alpha5', need=[1,2]),
   dict(name='h_tle_fields', need=[0,1,2,3,4]),
   dict(name='h_tle_mismatch', need=[1,2,3]),
   dict(name='h_tle_epoch_day', need=[1,2]),
   dict(name='h_tle_format', need=[0,1,2,3,4,5]),
 ]),
 'C03': dict(features='m_ev', entries=[
   dict(name='hr_ev_above', need=[1,2]),
   dict(name='hr_ev_above6', need=[1,2]),
   dict(name='hr_ev_range', need=[1,2]),
   dict(name='hr_ev_range3', need=[1,2], thorough_only=1),
 ]),
 'C04': dict(features='m_ev', entries=[
   dict(name='hr_ev_fallback', need=[0,1,2]),
 ]),
 'C05': dict(features='m_adsb', entries=[
   dict(name='h_adsb_gate', need=[1,2]),
   dict(name='h_adsb_burst', need=[1]),
   dict(name='h_adsb_text', need=[1,2]),
   dict(name='h_adsb_position', need=[1,2]),
   dict(name='h_adsb_callsign', need=[1,2]),
 ]),
 'C06': dict(features='m_adsb', entries=[
   dict(name='hr_adsb_altitude', need=[1,2]),
   dict(name='hr_adsb_velocity', need=[1,2,3]),
   dict(name='hr_adsb_cpr_global_lat', need=[1,2]),
   dict(name='hr_adsb_cpr_roundtrip_lat', need=[1]),
   dict(name='hr_adsb_cpr_local', need=[1,2]),
   dict(name='h_adsb_cpr_lon', need=[1]),
 ]),
 'C07': dict(features='m_spk', entries=[
   dict(name='h_daf_chain', need=[1,2]),
   dict(name='h_daf_sizes', need=[1,2,3]),
   dict(name='h_spk_words', need=[1,2,3]),
   dict(name='h_spk_index_words', need=[1,2]),
   dict(name='h_ck_words', need=[1,2]),
 ]),
 'C08': dict(features='m_spk', entries=[
   dict(name='h_spk_chain', need=[1]),
   dict(name='hr_spk_cheb2', need=[1,2]),
   dict(name='hr_spk_cheb3', need=[1,2]),
   dict(name='hr_spk_lagrange', need=[1,2]),
   dict(name='hr_spk_hermite', need=[1,2]),
   dict(name='hr_spk_set', need=[1]),
 ]),
 'C09': dict(features='m_spt', entries=[
   dict(name='hr_pck', need=[1]),
   dict(name='hr_frames', need=[1]),
   dict(name='h_frames_bad', need=[1]),
   dict(name='hr_ck', need=[1,2]),
   dict(name='hr_sclk', need=[1,2]),
   dict(name='hr_lsk', need=[1]),
   dict(name='h_text', need=[1,2]),
   dict(name='h_lsk_text', need=[1,2]),
 ]),
 'C10': dict(features='m_fr', entries=[
   dict(name='hr_fr_angles', need=[1]),
   dict(name='hr_fr_precession', need=[1]),
   dict(name='hr_fr_nutation', need=[1]),
   dict(name='hr_fr_cio', need=[1]),
   dict(name='hr_fr_bodies', need=[1]),
   dict(name='hr_fr_polar', need=[1]),
   dict(name='hr_fr_const', need=[1]),
   dict(name='hr_fr_earth', need=[1]),
   dict(name='hr_fr_pairs', need=[1]),
 ]),
 'C11': dict(features='m_ct', entries=[
   dict(name='hr_ct_shift', need=[1]),
   dict(name='hr_ct_planets', need=[1]),
   dict(name='hr_ct_position', need=[1]),
   dict(name='hr_ct_bodycentric', need=[1]),
   dict(name='hr_ct_site', need=[1]),
   dict(name='hr_ct_geodetic', need=[1]),
   dict(name='hr_ct_known_site', need=[], known='topocentric site vector at JD 2459015.5 is turned by the Earth rotation angle the wrong way (rz(-ERA) in itrs_to_equatorial_mean_j2000_rotation)'),
 ]),
 'C12': dict(features='m_hz', entries=[
   dict(name='hr_hz_direction', need=[1]),
   dict(name='hr_hz_inverse', need=[1]),
   dict(name='hr_hz_mean', need=[1]),
   dict(name='hr_hz_mean_inv', need=[1]),
   dict(name='hr_hz_event', need=[1]),
   dict(name='hr_hz_sidereal', need=[1]),
   dict(name='hr_hz_star', need=[1]),
 ]),
 'C13': dict(features='m_dy', entries=[
   dict(name='hr_dy_relativity', need=[1]),
   dict(name='hr_dy_rtn', need=[1]),
   dict(name='hr_dy_periodic', need=[1]),
   dict(name='hr_dy_drag', need=[1]),
   dict(name='hr_dy_density', need=[1,2]),
   dict(name='hr_dy_third', need=[1]),
   dict(name='hr_dy_third_sum', need=[1]),
   dict(name='hr_dy_bodies', need=[1]),
   dict(name='hr_dy_srp', need=[1,2]),
   dict(name='hr_dy_cylinder', need=[1,2]),
   dict(name='hr_dy_conical', need=[1,2,3]),
   dict(name='hr_dy_gravity', need=[1]),
   dict(name='hr_dy_missing', need=[1]),
 ]),
 'C14': dict(features='m_pd', entries=[
   dict(name='hr_pd_pseudorange', need=[1]),
   dict(name='hr_pd_phase', need=[1]),
   dict(name='hr_pd_iono', need=[1,2]),
   dict(name='hr_pd_slr', need=[1]),
   dict(name='hr_pd_corrections', need=[1]),
   dict(name='hr_pd_batch', need=[1]),
   dict(name='hr_pd_noise', need=[1,2]),
   dict(name='hr_pd_psd', need=[1]),
   dict(name='hr_pd_sigma', need=[1]),
   dict(name='hr_pd_stats', need=[1]),
   dict(name='hr_pd_rtn', need=[1]),
   dict(name='hr_pd_rtn_summary', need=[1]),
   dict(name='hr_pd_thrust', need=[1,2,3]),
   dict(name='hr_pd_rocket', need=[1,2,3]),
   dict(name='hr_pd_covariance', need=[1,2]),
   dict(name='hr_pd_normal', need=[1]),
   dict(name='hr_pd_rk4', need=[1]),
 ]),
 'C15': dict(features='m_mi', entries=[
   dict(name='hr_mi_los', need=[1,2]),
   dict(name='hr_mi_los_slant', need=[1,2]),
   dict(name='hr_mi_occult', need=[1,2,3,4]),
   dict(name='hr_mi_lens', need=[1]),
   dict(name='hr_mi_fov', need=[1]),
   dict(name='hr_mi_terrain', need=[1,2,3,4]),
   dict(name='hr_mi_terrain_small', need=[1]),
   dict(name='hr_mi_azel', need=[1]),
   dict(name='h_mi_zenith', need=[1]),
   dict(name='hr_mi_beta', need=[1]),
   dict(name='hr_mi_solar_time', need=[1]),
   dict(name='hr_mi_known_azel', need=[], known='azimuth_elevation_range stores radians in the degree-valued angles of the pointing it returns'),
 ]),
 'C16': dict(features='m_kp', entries=[
   dict(name='hr_kp_mean', need=[1]),
   dict(name='hr_kp_conic_now', need=[1]),
   dict(name='hr_kp_advance', need=[1]),
   dict(name='hr_kp_mu', need=[1]),
   dict(name='hr_kp_hyper', need=[1]),
   dict(name='hr_kp_hyper_dt', need=[1]),
   dict(name='hr_kp_apsides', need=[1]),
   dict(name='h_kp_valid', need=[1,2]),
 ]),
 'C17': dict(features='m_sc', entries=[
   dict(name='hr_sc_aberration', need=[1], cost=9),
   dict(name='hr_sc_roundtrip', need=[1], cost=9),
   dict(name='hr_sc_observer', need=[1], cost=9),
   dict(name='hr_sc_space', need=[1], cost=8),
   dict(name='hr_sc_deflect', need=[1], cost=8),
   dict(name='hr_sc_rest', need=[1]),
   dict(name='hr_sc_magnitude', need=[1]),
   dict(name='h_sc_policy', need=[1]),
   dict(name='hr_sc_linear', need=[1]),
   dict(name='h_sc_refuse', need=[1]),
 ]),
}
NOT_APPLICABLE = {}
