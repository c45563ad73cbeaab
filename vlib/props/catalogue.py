"""The EMVA 1288 quantities a result must list: section, description, symbol, unit, kind."""

CATALOGUE = {
    'DR': ('sensitivity', 'Dynamic Range', 'DR', None, 'value'),
    'DR_dB': ('sensitivity', 'Dynamic Range', '$DR_{dB}$', 'dB', 'value'),
    'DSNU1288': ('spatial', 'DSNU', '$DSNU_{1288}$', '$e^-$', 'value'),
    'DSNU1288_DN': ('spatial', 'DSNU in DN', '$DSNU_{1288.DN}$', 'DN', 'value'),
    'DSNU1288_col': ('spatial', 'DSNUcol', '$DSNU_{1288.col}$', '$e^-$', 'value'),
    'DSNU1288_pixel': ('spatial', 'DSNUpixel', '$DSNU_{1288.pixel}$', '$e^-$', 'value'),
    'DSNU1288_row': ('spatial', 'DSNUrow', '$DSNU_{1288.row}$', '$e^-$', 'value'),
    'K': ('sensitivity', 'System gain', 'K', '$DN/e^-$', 'value'),
    'LE_max': ('linearity', 'Max Linearity error', '$LE_{max}$', '\\%', 'value'),
    'LE_min': ('linearity', 'Min Linearity error', '$LE_{min}$', '\\%', 'value'),
    'PRNU1288': ('spatial', 'PRNU', '$PRNU_{1288}$', '\\%', 'value'),
    'PRNU1288_col': ('spatial', 'PRNUcol', '$PRNU_{1288.col}$', '\\%', 'value'),
    'PRNU1288_pixel': ('spatial', 'PRNUpixel', '$PRNU_{1288.pixel}$', '\\%', 'value'),
    'PRNU1288_row': ('spatial', 'PRNUrow', '$PRNU_{1288.row}$', '\\%', 'value'),
    'QE': ('sensitivity', 'Quantum efficiency', '$\\eta$', '\\%', 'value'),
    'R': ('sensitivity', 'Responsivity', 'R', 'DN/p', 'value'),
    'SNR_max': ('sensitivity', 'Signal-to-Noise Ratio', '$SNR_{max}$', None, 'value'),
    'SNR_max_bit': ('sensitivity', 'Maximum Signal to Noise Ratio in Bits', '$SNR_{max.bit}$', 'bit', 'value'),
    'SNR_max_dB': ('sensitivity', 'Maximum Signal to Noise Ratio in Db', '$SNR_{max.dB}$', 'dB', 'value'),
    'histogram_DSNU': ('defect_pixel', 'DSNU histogram', None, None, 'data'),
    'histogram_DSNU_accumulated': ('defect_pixel', 'accumulated DSNU histogram', None, None, 'data'),
    'histogram_PRNU': ('defect_pixel', 'PRNU histogram', None, None, 'data'),
    'histogram_PRNU_accumulated': ('defect_pixel', 'accumulated PRNU histogram', None, None, 'data'),
    'index_linearity_max': ('linearity', 'Linearity fit maximum index', None, None, 'value'),
    'index_linearity_min': ('linearity', 'Linearity fit minimun index', None, None, 'value'),
    'index_sensitivity_max': ('sensitivity', 'Sensitivity fit maximum index', None, None, 'value'),
    'index_sensitivity_min': ('sensitivity', 'Sensitivity fit minimum index', None, None, 'value'),
    'index_start': ('info', 'Start array index', None, None, 'value'),
    'index_u_ysat': ('sensitivity', 'Saturation index', None, None, 'value'),
    'inverse_K': ('sensitivity', 'Inverse of overall system gain', '1/K', '$e^-/DN$', 'value'),
    'inverse_SNR_max': ('sensitivity', 'Inverse Maximum Signal to Noise Ratio', '$SNR_{max}^{-1}$', '\\%', 'value'),
    's_2_y': ('spatial', 'Spatial variance from image', '$s^2_{y}$', 'DN2', 'value'),
    's_2_y_cav': ('spatial', 'Spatial variance from image', '$s^2_{y.cav}$', 'DN2', 'value'),
    's_2_y_cav_dark': ('spatial', 'Spatial variance from image', '$s^2_{y.cav.dark}$', 'DN2', 'value'),
    's_2_y_col': ('spatial', 'Spatial variance from image', '$s^2_{y.col}$', 'DN2', 'value'),
    's_2_y_col_dark': ('spatial', 'Spatial variance from image', '$s^2_{y.col.dark}$', 'DN2', 'value'),
    's_2_y_dark': ('spatial', 'Spatial variance from image', '$s^2_{y.dark}$', 'DN2', 'value'),
    's_2_y_measured': ('spatial', 'Spatial variance measure', '$s^2_{y.measured}$', 'DN2', 'value'),
    's_2_y_measured_dark': ('spatial', 'Spatial variance measured dark', '$s^2_{y.measured.dark}$', 'DN2', 'value'),
    's_2_y_pixel': ('spatial', 'Spatial variance from image', '$s^2_{y.pixel}$', 'DN2', 'value'),
    's_2_y_pixel_dark': ('spatial', 'Spatial variance from image', '$s^2_{y.pixel.dark}$', 'DN2', 'value'),
    's_2_y_rav': ('spatial', 'Spatial variance from image', '$s^2_{y.rav}$', 'DN2', 'value'),
    's_2_y_rav_dark': ('spatial', 'Spatial variance from image', '$s^2_{y.rav.dark}$', 'DN2', 'value'),
    's_2_y_row': ('spatial', 'Spatial variance from image', '$s^2_{y.row}$', 'DN2', 'value'),
    's_2_y_row_dark': ('spatial', 'Spatial variance from image', '$s^2_{y.row.dark}$', 'DN2', 'value'),
    'sigma_2_y_stack': ('spatial', 'Temporal variance stack', '$\\sigma^2_{y.stack}$', 'DN2', 'value'),
    'sigma_2_y_stack_dark': ('spatial', 'Temporal variance stack dark', '$\\sigma^2_{y.stack.dark}$', 'DN2', 'value'),
    'sigma_d': ('sensitivity', 'Temporal Dark Noise', '$\\sigma_d$', '$e^-$', 'value'),
    'sigma_y_dark': ('sensitivity', 'Temporal Dark Noise', '$\\sigma_{y.dark}$', 'DN', 'value'),
    'u_I_mean': ('dark_current', 'Dark Current from mean', '$\\mu_{I.mean}$', '$e^-/s$', 'value'),
    'u_I_mean_DN': ('dark_current', 'Dark Current from mean', '$\\mu_{I.mean.DN}$', '$DN/s$', 'value'),
    'u_I_var': ('dark_current', 'Dark Current from variance', '$\\mu_{I.var}$', '$e^-/s$', 'value'),
    'u_I_var_DN': ('dark_current', 'Dark Current from variance', '$\\mu_{I.var.DN}$', '$DN/s$', 'value'),
    'u_e_min': ('sensitivity', 'Sensitivity threshold', '$\\mu_{e.min}$', '$e^-$', 'value'),
    'u_e_min_area': ('sensitivity', 'Sensitivity threshold', '$\\mu_{e.min.area}$', '$e^-/\\mu m^2$', 'value'),
    'u_e_sat': ('sensitivity', 'Saturation Capacity', '$\\mu_{e.sat}$', '$e^-$', 'value'),
    'u_e_sat_area': ('sensitivity', 'Saturation Capacity', '$\\mu_{e.sat.area}$', '$e^-/\\mu m^2$', 'value'),
    'u_p_min': ('sensitivity', 'Absolute sensitivity threshold', '$\\mu_{p.min}$', '$p$', 'value'),
    'u_p_min_area': ('sensitivity', 'Sensitivity threshold', '$\\mu_{p.min.area}$', '$p/\\mu m^2$', 'value'),
    'u_p_sat': ('sensitivity', 'Saturation Capacity', '$\\mu_{p.sat}$', '$p$', 'value'),
    'u_p_sat_area': ('sensitivity', 'Saturation Capacity', '$\\mu_{p.sat.area}$', '$p/\\mu m^2$', 'value'),
}
