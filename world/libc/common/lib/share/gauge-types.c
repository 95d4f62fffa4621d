/* types only */
