"""property id -> (module, function)"""
REGISTRY = {
    'P01': ('fx_option', 'p01'), 'P02': ('fx_option', 'p02'), 'P03': ('fx_option', 'p03'),
    'P04': ('rates_option', 'p04'), 'P05': ('rates_option', 'p05'), 'P06': ('sabr', 'p06'),
    'P07': ('heston', 'p07'), 'P08': ('heston', 'p08'), 'P09': ('heston', 'p09'), 'P10': ('heston', 'p10'),
    'P11': ('mc', 'p11'), 'P12': ('mc', 'p12'), 'P13': ('hw1f', 'p13'), 'P21': ('hw1f', 'p21'), 'P14': ('mc', 'p14'),
    'P15': ('curve', 'p15'), 'P16': ('curve', 'p16'), 'P17': ('curve', 'p17'), 'P18': ('curve', 'p18'), 'P19': ('fixings', 'p19'), 'P20': ('dates', 'p20'),
    'P22': ('schedule', 'p22'), 'P23': ('schedule', 'p23'), 'P24': ('schedule', 'p24'), 'P25': ('schedule', 'p25'),
    'P26': ('conventions', 'p26'),
    'P27': ('conventions', 'p27'),
    'P28': ('conventions', 'p28'),
    'P29': ('fx', 'p29'), 'P30': ('fx', 'p30'), 'P31': ('fx', 'p31'),
    'P32': ('fx', 'p32'),
    'P33': ('fx', 'p33'),
    'P34': ('effects', 'p34'),
    'P35': ('effects', 'p35'),
    'P36': ('refuse', 'p36'),
    'P37': ('refuse', 'p37'),
    'P38': ('cosine', 'p38'),
}
