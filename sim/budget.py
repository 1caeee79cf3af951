"""Simulated runs per check."""

BUDGET = {
    "C01": {"quick": 3200, "thorough": 48000},
    "C04": {"quick": 800, "thorough": 16000},
    "C05": {"quick": 1600, "thorough": 32000},
    "C06": {"quick": 3200, "thorough": 64000},
    "C03": {"quick": 2400, "thorough": 30000},
    "C02": {"quick": 1600, "thorough": 32000},
    "C07": {"quick": 3200, "thorough": 32000},
    "C08": {"quick": 2400, "thorough": 32000},
    "C09": {"quick": 3200, "thorough": 48000},
    "C10": {"quick": 3200, "thorough": 64000},
    "C11": {"quick": 2400, "thorough": 32000},
    "C17": {"quick": 800, "thorough": 16000},
    "C12": {"quick": 3200, "thorough": 32000},
}
