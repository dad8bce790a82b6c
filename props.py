"""What check.py runs for each property."""

NOTE = ('TLC explores the specification completely within small bounds and validates every recorded call of the '
        'real library (exhaustive short histories and seeded random long ones) against it. '
        'Trusted: TLC, the recorder, the bounds given in DESIGN.md. ')

RX = ['one section completes per packet at most (ISO 13818-1 allows more; the accumulator holds one)']

PROPS = {
    'C01': dict(trace='Trace_Mux', cfg='Trace_Mux.cfg', models=[dict(module='MC_C01', cfg='MC_C01.cfg')],
                assumptions=RX),
    'C02': dict(trace='Trace_Mux', cfg='Trace_Mux.cfg', shards=6,
                models=[dict(module='MC_C02', cfg='MC_C02.cfg', thorough_cfg='MC_C02_thorough.cfg')],
                assumptions=RX),
    'C03': dict(trace='Trace_Total',
                models=[dict(module='MC_C03', cfg='MC_C03.cfg', thorough_cfg='MC_C03_thorough.cfg')]),
    'C04': dict(trace='Trace_Crc', models=[dict(module='MC_C04', cfg='MC_C04.cfg')]),
    'C05': dict(trace='Trace_Pack', models=[dict(module='MC_C05', cfg='MC_C05.cfg')]),
    'C06': dict(trace='Trace_Table', cfg='Trace_Table.cfg',
                models=[dict(module='MC_Tables', cfg='MC_C06.cfg', thorough_cfg='MC_C06_thorough.cfg')]),
    'C07': dict(trace='Trace_Table', cfg='Trace_Table.cfg',
                models=[dict(module='MC_Tables', cfg='MC_C07.cfg', thorough_cfg='MC_C07_thorough.cfg')]),
    'C08': dict(trace='Trace_Table', cfg='Trace_Table.cfg',
                models=[dict(module='MC_Tables', cfg='MC_C08.cfg', thorough_cfg='MC_C08_thorough.cfg')]),
    'C09': dict(trace='Trace_Table', cfg='Trace_Table.cfg',
                models=[dict(module='MC_Tables', cfg='MC_C09.cfg', thorough_cfg='MC_C09_thorough.cfg')]),
    'C10': dict(trace='Trace_Table', cfg='Trace_Table.cfg',
                models=[dict(module='MC_Tables', cfg='MC_C10.cfg', thorough_cfg='MC_C10_thorough.cfg')]),
    'C11': dict(trace='Trace_Table', cfg='Trace_Schedule.cfg',
                models=[dict(module='MC_C11', cfg='MC_C11.cfg', thorough_cfg='MC_C11_thorough.cfg')]),
    'C12': dict(trace='Trace_Table', cfg='Trace_Table.cfg',
                models=[dict(module='MC_Tables', cfg='MC_C12.cfg')]),
    'C13': dict(trace='Trace_Table', cfg='Trace_Table.cfg',
                models=[dict(module='MC_C13', cfg='MC_C13.cfg', thorough_cfg='MC_C13_thorough.cfg')]),
    'C14': dict(trace='Trace_Table', cfg='Trace_Table.cfg',
                models=[dict(module='MC_C14', cfg='MC_C14.cfg', thorough_cfg='MC_C14_thorough.cfg')]),
    'C15': dict(trace='Trace_Desc', models=[dict(module='MC_C15', cfg='MC_C15.cfg')]),
    'C16': dict(trace='Trace_Desc', models=[dict(module='MC_C16', cfg='MC_C16.cfg')]),
    'C17': dict(trace='Trace_Desc',
                models=[dict(module='MC_C17', cfg='MC_C17.cfg', thorough_cfg='MC_C17_thorough.cfg')]),
    'C18': dict(trace='Trace_Text', models=[dict(module='MC_C18', cfg='MC_C18.cfg')]),
    'C19': dict(trace='Trace_Text',
                models=[dict(module='MC_C19', cfg='MC_C19.cfg', thorough_cfg='MC_C19_thorough.cfg')]),
    'C20': dict(trace='Trace_Time', models=[dict(module='MC_C20', cfg='MC_C20.cfg')]),
    'C21': dict(trace='Trace_Ts',
                models=[dict(module='MC_C21', cfg='MC_C21.cfg', thorough_cfg='MC_C21_thorough.cfg')]),
    'C22': dict(trace='Trace_Clock', cfg='Trace_Clock.cfg',
                models=[dict(module='MC_BigNat', cfg='MC_BigNat.cfg'), dict(module='MC_C22', cfg='MC_C22.cfg')]),
    'C23': dict(trace='Trace_Pes', cfg='Trace_Pes.cfg', models=[dict(module='MC_C23', cfg='MC_C23.cfg')]),
    'C24': dict(trace='Trace_Reader', cfg='Trace_Reader.cfg',
                models=[dict(module='MC_C24', cfg='MC_C24.cfg', thorough_cfg='MC_C24_thorough.cfg')]),
    'C25': dict(trace='Trace_Drain',
                models=[dict(module='MC_C25', cfg='MC_C25.cfg', thorough_cfg='MC_C25_thorough.cfg')]),
    'C26': dict(trace='Trace_Class', models=[dict(module='MC_C26', cfg='MC_C26.cfg')]),
    'C27': dict(trace='Trace_Lang', models=[dict(module='MC_C27', cfg='MC_C27.cfg')]),
    'C28': dict(trace='Trace_Path',
                models=[dict(module='MC_C28', cfg='MC_C28.cfg', thorough_cfg='MC_C28_thorough.cfg')]),
    'C29': dict(trace='Trace_Codes', models=[dict(module='MC_C29', cfg='MC_C29.cfg')]),
    'C30': dict(trace='Trace_List',
                models=[dict(module='MC_C30', cfg='MC_C30.cfg', thorough_cfg='MC_C30_thorough.cfg')]),
    'C31': dict(trace='Trace_Print', cfg='Trace_Print.cfg', models=[dict(module='MC_C31', cfg='MC_C31.cfg')]),
    'C32': dict(trace='Trace_Words',
                models=[dict(module='MC_C32', cfg='MC_C32.cfg', thorough_cfg='MC_C32_thorough.cfg')]),
    'C33': dict(trace='Trace_Own',
                models=[dict(module='MC_C33', cfg='MC_C33.cfg', thorough_cfg='MC_C33_thorough.cfg')]),
    'C34': dict(trace='Trace_Relay', cfg='Trace_Mux.cfg',
                models=[dict(module='MC_C34', cfg='MC_C34.cfg', thorough_cfg='MC_C34_thorough.cfg')]),
    'C35': dict(trace='Trace_Carousel', cfg='Trace_Carousel.cfg',
                models=[dict(module='MC_C35', cfg='MC_C35.cfg', thorough_cfg='MC_C35_thorough.cfg')]),
    'C36': dict(mixed=True, models=[dict(module='MC_C36', cfg='MC_C36.cfg', thorough_cfg='MC_C36_thorough.cfg')]),
}

for _p in PROPS.values():
    _p['note'] = NOTE + _p.get('note', '')
