// Dense copy of a block matrix.
#pragma once
#include "fe.hpp"
inline FeMatrix dense(const Teuchos::RCP<Plato::CrsMatrixType>& m)
{
    auto host = [](auto v) { auto h = Kokkos::create_mirror_view(v); Kokkos::deep_copy(h, v); return h; };
    auto row = host(m->rowMap());
    auto col = host(m->columnIndices());
    auto ent = host(m->entries());
    FeMatrix d;
    bool blk = m->isBlockMatrix();
    int nr = blk ? m->numRowsPerBlock() : 1, nc = blk ? m->numColsPerBlock() : 1, nb = int(row.extent(0)) - 1;
    d.rows = nb * nr;
    d.cols = m->numCols();
    d.a.assign(size_t(d.rows) * d.cols, 0.0);
    for (int b = 0; b < nb; b++)
        for (int k = row(b); k < row(b + 1); k++)
            for (int i = 0; i < nr; i++)
                for (int j = 0; j < nc; j++) d.a.at(size_t(b * nr + i) * d.cols + col(k) * nc + j) += ent(size_t(k) * nr * nc + i * nc + j);
    return d;
}
