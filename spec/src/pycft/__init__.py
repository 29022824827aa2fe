# SPDX-FileCopyrightText: 2025 Dominik Krupke <krupked@gmail.com>
# SPDX-License-Identifier: MIT

from .set_cover_solver import SetCoverSolver

__all__ = ["SetCoverSolver"]