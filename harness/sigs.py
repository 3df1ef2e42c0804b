"""Parameter names of the operations (as in spec/Signatures.tla), optional ones after '|'."""
P = "latitude_deg longitude_deg when"
SIG = {
 "get_leap_seconds": "when|", "get_delta_t": "when|", "get_julian_solar_day": "when|", "get_julian_ephemeris_day": "when|",
 "get_topocentric_position": P + "|elevation", "get_position": P + "|elevation temperature pressure", "get_altitude": P + "|elevation temperature pressure", "get_azimuth": P + "|elevation",
 "get_altitude_fast": P + "|", "get_azimuth_fast": P + "|", "get_hour_angle": "when longitude_deg|", "get_solar_time": "longitude_deg when|",
 "get_radiation_direct": "when altitude_deg|",
 "get_sunrise_sunset_transit": P + "|", "get_sunrise_sunset": P + "|", "get_sunrise_time": P + "|", "get_sunset_time": P + "|", "get_transit_time": P + "|",
 "mean_earth_sun_distance": "when|", "extraterrestrial_irrad": P + "|SC", "declination_degree": "when|TY",
 "solarelevation_function_clear": P + "|temperature pressure elevation", "solarelevation_function_overcast": P + "|elevation temperature pressure",
 "diffuse_transmittance": "|TL", "diffuse_underclear": P + "|elevation temperature pressure TL", "diffuse_underovercast": P + "|elevation temperature pressure TL",
 "direct_underclear": P + "|TY AM TL elevation temperature pressure", "global_irradiance_clear": P + "|TY AM TL elevation temperature pressure",
 "global_irradiance_overcast": P + "|elevation temperature pressure", "diffuse_ratio": "DIFF_data ghi_data|", "clear_index": "ghi_data " + P + "|",
 "get_temperature_with_elevation": "h|Ts Tl", "get_pressure_with_elevation": "h|Ps Ts Tl Hb R g M",
}
AM = "pressure_millibars ozone_atm_cm nitrogen_atm_cm precipitable_water_cm turbidity_alpha turbidity_beta"
SIG.update({
 "get_aerosol_forward_scatterance_factor": "altitude_deg|", "get_aerosol_optical_depth": "turbidity_beta effective_wavelength turbidity_alpha|",
 "get_aerosol_scattering_correction_factor": "band ma tau_a|", "get_aerosol_transmittance": "band ma tau_a|", "get_aerosol_scattering_transmittance": "band ma tau_a|",
 "get_backscattered_diffuse_irradiance_by_band": "band Ebi Edpi|turbidity_alpha turbidity_beta",
 "get_beam_broadband_irradiance": "altitude_deg|" + AM, "get_beam_irradiance_by_band": "band altitude_deg|" + AM,
 "get_broadband_direct_normal_irradiance": "altitude_deg|" + AM, "get_direct_normal_irradiance_by_band": "band altitude_deg|" + AM,
 "get_effective_aerosol_wavelength": "band ma turbidity_alpha turbidity_beta|", "get_gas_transmittance": "band mRprime|", "get_ground_albedo": "band|",
 "get_global_broadband_irradiance": "altitude_deg|" + AM, "get_diffuse_broadband_irradiance": "|air_mass turbidity_alpha turbidity_beta", "get_diffuse_irradiance_by_band": "band|air_mass turbidity_alpha turbidity_beta",
 "get_backscattered_diffuse_broadband_irradiance": "band|turbidity_alpha turbidity_beta",
 "get_nitrogen_transmittance": "band mw nitrogen_atm_cm|", "get_optical_mass_rayleigh": "altitude_deg pressure_millibars|", "get_optical_mass_ozone": "altitude_deg|",
 "get_optical_mass_water": "altitude_deg|", "get_optical_mass_aerosol": "altitude_deg|", "get_ozone_transmittance": "band mo uo|",
 "get_rayleigh_extinction_forward_scattering_fraction": "band mR|", "get_rayleigh_transmittance": "band mRprime|", "get_sky_albedo": "band turbidity_alpha turbidity_beta|",
 "get_water_vapor_transmittance": "band mw w|", "get_water_vapor_transmittance_coefficients": "band w|"})
def names(op):
    r, o = SIG[op].split("|")
    return r.split(), o.split()
GATED = [o for o in SIG if "when" in SIG[o] and o != "get_radiation_direct"]
SKY = ["solarelevation_function_clear", "solarelevation_function_overcast", "diffuse_underclear", "diffuse_underovercast", "direct_underclear", "global_irradiance_clear", "global_irradiance_overcast"]
