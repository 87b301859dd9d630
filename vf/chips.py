"""Memory types of every supported chip: (key, reported name, primary address, secondary address, length).

Reference data for the checks, taken from the chip manuals as recorded by the project at the pinned commit.
"""

CHIPS = {
    'esp32': [
        ('DRAM', 'DRAM', 0x3ffae000, 0x0, 0x52000),
        ('IRAM', 'IRAM', 0x40070000, 0x0, 0x50000),
        ('CACHE_I', 'Flash Code', 0x400c2000, 0x0, 0xb3e000),
        ('CACHE_D_1', 'Flash Data', 0x3f400000, 0x0, 0x400000),
        ('CACHE_D_2', 'SPI DRAM', 0x3f800000, 0x0, 0x400000),
        ('RTC_FAST_D', 'RTC FAST', 0x3ff80000, 0x400c0000, 0x2000),
        ('RTC_SLOW_D', 'RTC SLOW', 0x50000000, 0x0, 0x2000),
    ],
    'esp32c2': [
        ('DRAM', 'DIRAM', 0x3fca0000, 0x40380000, 0x40000),
        ('IRAM', 'IRAM', 0x4037c000, 0x0, 0x4000),
        ('CACHE_I', 'Flash Code', 0x42000000, 0x0, 0x400000),
        ('CACHE_D', 'Flash Data', 0x3c000000, 0x0, 0x400000),
    ],
    'esp32c3': [
        ('DRAM', 'DRAM', 0x3fc80000, 0x40380000, 0x60000),
        ('IRAM', 'IRAM', 0x4037c000, 0x0, 0x4000),
        ('CACHE_I', 'Flash Code', 0x42000000, 0x0, 0x800000),
        ('CACHE_D', 'Flash Data', 0x3c000000, 0x0, 0x800000),
        ('RTC_SLOW_D', 'RTC SLOW', 0x50000000, 0x0, 0x2000),
    ],
    'esp32c5': [
        ('DRAM', 'HP SRAM', 0x40800000, 0x40800000, 0x60000),
        ('CACHE_I', 'Flash', 0x42000000, 0x0, 0x2000000),
        ('CACHE_D', 'CACHE_D', 0x42000000, 0x0, 0x2000000),
        ('EXT_RAM', 'External RAM', 0x42000000, 0x0, 0x2000000),
        ('RTC_SLOW_D', 'LP SRAM', 0x50000000, 0x0, 0x4000),
    ],
    'esp32c6': [
        ('DRAM', 'DIRAM', 0x40800000, 0x40800000, 0x80000),
        ('CACHE_I', 'Flash Code', 0x42000000, 0x0, 0x1000000),
        ('CACHE_D', 'Flash Data', 0x42000000, 0x0, 0x1000000),
        ('RTC_SLOW_D', 'LP SRAM', 0x50000000, 0x0, 0x4000),
    ],
    'esp32c61': [
        ('DRAM', 'DIRAM', 0x40800000, 0x40800000, 0x50000),
        ('CACHE_I', 'Flash Code', 0x42000000, 0x0, 0x2000000),
        ('CACHE_D', 'Flash Data', 0x42000000, 0x0, 0x2000000),
        ('EXT_RAM', 'External RAM', 0x42000000, 0x0, 0x2000000),
        ('RTC_SLOW_D', 'LP SRAM', 0x50000000, 0x0, 0x4000),
    ],
    'esp32h2': [
        ('DRAM', 'DIRAM', 0x40800000, 0x40800000, 0x50000),
        ('CACHE_I', 'Flash Code', 0x42000000, 0x0, 0x1000000),
        ('CACHE_D', 'Flash Data', 0x42000000, 0x0, 0x1000000),
        ('RTC_SLOW_D', 'LP SRAM', 0x50000000, 0x0, 0x1000),
    ],
    'esp32h21': [
        ('DRAM', 'DIRAM', 0x40800000, 0x40800000, 0x50000),
        ('CACHE_I', 'Flash', 0x42000000, 0x0, 0x1000000),
        ('RTC_SLOW_D', 'LP SRAM', 0x50000000, 0x0, 0x1000),
    ],
    'esp32h4': [
        ('DRAM', 'DIRAM', 0x40808000, 0x40808000, 0x60000),
        ('CACHE_I', 'Flash', 0x42000020, 0x0, 0x2000000),
        ('EXT_RAM', 'External RAM', 0x42000020, 0x0, 0x2000000),
    ],
    'esp32p4': [
        ('DRAM', 'DIRAM', 0x4ff00000, 0x4ff00000, 0xc0000),
        ('CACHE_I_1', 'Flash', 0x40000000, 0x0, 0x4000000),
        ('CACHE_D_1', 'CACHE_D_1', 0x40000000, 0x0, 0x4000000),
        ('CACHE_I_2', 'External RAM', 0x48000000, 0x0, 0x4000000),
        ('CACHE_D_2', 'CACHE_D_2', 0x48000000, 0x0, 0x4000000),
        ('RTC_FAST_D', 'HP core RAM', 0x30100000, 0x30100000, 0x2000),
        ('RTC_SLOW_D', 'LP RAM', 0x50108000, 0x50108000, 0x8000),
    ],
    'esp32s2': [
        ('DRAM', 'DIRAM', 0x3ffb2000, 0x40022000, 0x4e000),
        ('CACHE_I_1', 'Flash Data', 0x3f000000, 0x0, 0x400000),
        ('CACHE_D', 'SPI DRAM', 0x3f500000, 0x0, 0xa80000),
        ('CACHE_I_2', 'Flash Code', 0x40080000, 0x0, 0x780000),
        ('RTC_FAST_D', 'RTC FAST', 0x40070000, 0x3ff9e000, 0x2000),
        ('RTC_SLOW_D', 'RTC SLOW', 0x50000000, 0x0, 0x2000),
    ],
    'esp32s3': [
        ('IRAM', 'IRAM', 0x40370000, 0x0, 0x8000),
        ('DRAM_1', 'DIRAM', 0x3fc88000, 0x40378000, 0x68000),
        ('DRAM_2', 'DRAM', 0x3fcf0000, 0x0, 0x10000),
        ('CACHE_I', 'Flash Code', 0x42000000, 0x0, 0x2000000),
        ('CACHE_D', 'Flash Data', 0x3c000000, 0x0, 0x2000000),
        ('EXT_RAM', 'External RAM', 0x3c000000, 0x0, 0x2000000),
        ('RTC_FAST_D', 'RTC FAST', 0x3ff80000, 0x600fe000, 0x2000),
        ('RTC_SLOW_D', 'RTC SLOW', 0x50000000, 0x0, 0x2000),
    ],
    'esp32s31': [
        ('DRAM', 'DIRAM', 0x2f000000, 0x2f000000, 0x80000),
        ('CACHE_I_1', 'Flash', 0x40000000, 0x0, 0x4000000),
        ('CACHE_I_2', 'External RAM', 0x50000000, 0x0, 0x4000000),
        ('RTC_SLOW_D', 'LP SRAM', 0x2e000000, 0x0, 0x8000),
    ],
}
