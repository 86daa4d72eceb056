"""Which file, attribute and method belongs to which quantity (property P37)."""
# statistics file: (file of observations, angle)
STATS = {'speed': ('all_speed', False), 'speed_rate': ('speed_rate', False), 'pressure': ('all_pressure', False), 'pressure_rate': ('pressure_rate', False),
         'bearing': ('all_bearing', True), 'bearing_rate': ('bearing_rate', True)}
USED = {'vStats': 'speed', 'pStats': 'pressure', 'bStats': 'bearing', 'dpStats': 'pressure_rate'}
# quantity of a distribution: (method that makes it, its positions, its values, angle, period)
CDF = {'init_bearing': ('cdfCellBearing', 'init_lon_lat', 'init_bearing', True, False), 'init_speed': ('cdfCellSpeed', 'init_lon_lat', 'init_speed', False, False),
       'init_pressure': ('cdfCellPressure', 'origin_lon_lat', 'init_pressure', False, False), 'init_rmax': ('cdfCellSize', 'origin_lon_lat', 'init_rmax', False, False),
       'init_day': ('kdeGenesisDate', 'origin_lon_lat', 'jdays', False, 365)}
HELD = {'allCDFInitBearing': 'init_bearing', 'allCDFInitSpeed': 'init_speed', 'allCDFInitPressure': 'init_pressure', 'allCDFInitDay': 'init_day', 'allCDFInitSize': 'init_rmax'}
