"""Names of the fields in the files of the evaluation and where their values come from."""
# class, {field: values}, coordinates more than cells, file
EV = {'trackDensity': ('TrackDensity', {'hist_density': 'hist', 'syn_density': 'synHistMean', 'syn_density_upper': 'synHistUpper', 'syn_density_lower': 'synHistLower'}, 1, 'density.nc'),
      'genesisDensity': ('GenesisDensity', {'hist_density': 'hist', 'syn_density': 'synHistMean', 'syn_density_upper': 'synHistUpper', 'syn_density_lower': 'synHistLower'}, 0, 'genesis_density.nc'),
      'pressureDistribution': ('PressureDistribution', {'hist_mean': 'histMean', 'syn_mean': 'synMean', 'hist_min': 'histMin', 'syn_min': 'synMin'}, 1, 'pressureDistribution.nc')}

CROSS = {'hist': 'lonCrossingHist', 'hist_ew': 'lonCrossingEWHist', 'hist_we': 'lonCrossingWEHist', 'syn_mean': 'synCrossMean', 'syn_mean_ew': 'synCrossEW', 'syn_mean_we': 'synCrossWE',
         'syn_upper': 'synCrossUpper', 'syn_upper_ew': 'synCrossEWUpper', 'syn_upper_we': 'synCrossWEUpper', 'syn_lower': 'synCrossLower', 'syn_lower_ew': 'synCrossEWLower', 'syn_lower_we': 'synCrossWELower'}
